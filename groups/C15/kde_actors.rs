use super::*;
use actix::sched;
use actix::vx;
use ndarray::Array2;

static mut OUT: Vec<GaussianKDEResponse> = Vec::new();
fn out() -> &'static mut Vec<GaussianKDEResponse> {
    unsafe { &mut *std::ptr::addr_of_mut!(OUT) }
}
fn deliver(_: usize, m: GaussianKDEResponse) { out().push(m) }
fn row(set: usize, i: usize) -> f32 {
    match set {
        0 => i as f32 * 1.5 + (i * i % 7) as f32 * 0.3,
        1 => ((i * 37 + 11) % 29) as f32 - 14.0,
        _ => if i == 0 { 50.0 } else { -((i * 5 % 13) as f32) * 0.1 },
    }
}
fn request(a: &Addr<GaussianKDEActor>, xs: &[f32], grid: usize) {
    out().clear();
    let n = xs.len();
    a.do_send(GaussianKDEMessage { column: Array2::from_shape_fn((n, 1), |(i, _)| xs[i]).to_shared() });
    sched::run_all();
    vx::check(out().len() == 1, 1);
    let e = out().remove(0).kernel_estimate;
    vx::check(e.len() == grid, 2);
    let nf = n as f64;
    let (mut lo, mut hi, mut sum) = (xs[0], xs[0], 0.0);
    for x in xs { if *x < lo { lo = *x; } if *x > hi { hi = *x; } sum += *x as f64; }
    let mean = sum / nf;
    let var = xs.iter().map(|x| (*x as f64 - mean) * (*x as f64 - mean)).sum::<f64>() / (nf - 1.0);
    // the bandwidth is Scott's
    let f = nf.powf(-0.2);
    let v = var * f * f;
    let (lo, hi) = (lo as f64, hi as f64);
    for j in 0..grid {
        let g = lo - 0.1 * (hi - lo) + 1.2 * (hi - lo) * j as f64 / (grid - 1) as f64;
        let mut want = 0.0f64;
        for x in xs { let d = *x as f64 - g; want += (-d * d / (2.0 * v)).exp(); }
        want /= nf * (2.0 * std::f64::consts::PI * v).sqrt();
        let got = e[j] as f64;
        vx::check((got - want).abs() < 0.0005 * want + 1e-7, 3);
    }
}
fn rows(set: usize, n: usize) -> Vec<f32> { (0..n).map(|i| row(set, i)).collect() }
// every number of rows and threads
vx::entry! { vh_rows(n, t, grid, set) {
    let threads = 1 + vx::choose(t);
    let n = 2 + vx::choose(n - 1);
    let a = GaussianKDEActor::new(threads, grid, Recipient::vx_from_fn(0, deliver)).start();
    request(&a, &rows(set, n), grid);
    vx::cover(1);
    if n < threads { vx::cover(2); }
} }
// many rows and threads
vx::entry! { vh_large(n, t, grid, set) {
    let a = GaussianKDEActor::new(t, grid, Recipient::vx_from_fn(0, deliver)).start();
    for i in 0..2 { request(&a, &rows(set, n + i), grid); }
} }
// every completion order of the helpers; two requests in a row
vx::entry! { vh_order(n, t, grid, set) {
    sched::set_mode(sched::Mode::Any);
    let a = GaussianKDEActor::new(t, grid, Recipient::vx_from_fn(0, deliver)).start();
    request(&a, &rows(set, n), grid);
    request(&a, &rows(set + 1, n + 1), grid);
    vx::cover(3);
} }
// the whole clustering, every order: same labels as with one thread
static mut LABELS: Vec<ClusteringResponse<f32>> = Vec::new();
fn labels() -> &'static mut Vec<ClusteringResponse<f32>> {
    unsafe { &mut *std::ptr::addr_of_mut!(LABELS) }
}
fn keep(_: usize, m: ClusteringResponse<f32>) { labels().push(m) }
vx::entry! { vh_whole(n, t, dims, set) {
    labels().clear();
    let data = Array2::from_shape_fn((n, dims), |(i, d)| row((set + d) % 3, i));
    for threads in [1, t] {
        if threads == t { sched::set_mode(sched::Mode::Any); }
        let a = MultiKDEActor::new(Recipient::vx_from_fn(0, keep), threads).start();
        a.do_send(MultiKDEMessage { data: data.clone() });
        sched::run_all();
    }
    vx::check(labels().len() == 2, 1);
    vx::check(labels()[0].labels == labels()[1].labels, 4);
    vx::cover(4);
} }
