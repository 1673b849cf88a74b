use super::*;
use actix::sched;
use actix::vx;
use ndarray::Array2;

static mut OUT: Vec<ClusteringResponse<f32>> = Vec::new();
fn out() -> &'static mut Vec<ClusteringResponse<f32>> {
    unsafe { &mut *std::ptr::addr_of_mut!(OUT) }
}
fn deliver(_: usize, m: ClusteringResponse<f32>) { out().push(m) }
static mut ESTIMATES: Vec<(Vec<f32>, Option<Addr<MultiKDEActor>>)> = Vec::new();
fn estimates() -> &'static mut Vec<(Vec<f32>, Option<Addr<MultiKDEActor>>)> {
    unsafe { &mut *std::ptr::addr_of_mut!(ESTIMATES) }
}
/// stands for the density estimation: answers with the next of the given estimates
fn answer(_: &mut GaussianKDEActor, m: GaussianKDEMessage, _: &mut Context<GaussianKDEActor>) {
    let _ = m;
    let (e, a) = estimates().remove(0);
    a.unwrap().do_send(GaussianKDEResponse { kernel_estimate: Array1::from(e) });
}
const N: usize = 250;
fn close(a: f32, b: f32, t: f32) -> bool { (a - b < t) & (b - a < t) }
fn within(lo: f32, hi: f32) -> f32 {
    let x = vx::float();
    vx::assume((x >= lo) & (x <= hi));
    x
}
/// m arbitrary densities at the start, in the middle or at the end of the grid, a flat bottom elsewhere (at >= 3: and a peak in the middle)
fn density(m: usize, at: usize) -> Vec<f32> {
    let mut v = vec![0.5; N];
    let from = if at >= 3 { v[125] = 0.8; [0, N - m][(at - 3) % 2] } else { [0, 120, N - m][at] };
    for i in 0..m { v[from + i] = within(0.0, 1.0); }
    v
}
fn cluster(data: Array2<f32>, dens: &[Vec<f32>]) -> ClusteringResponse<f32> {
    out().clear();
    sched::stub::<GaussianKDEActor, GaussianKDEMessage>(answer);
    let a = MultiKDEActor::new(Recipient::vx_from_fn(0, deliver), 2).start();
    estimates().clear();
    for d in dens { estimates().push((d.clone(), Some(a.clone()))); }
    a.do_send(MultiKDEMessage { data });
    sched::run_all();
    vx::check(out().len() == 1, 1);
    out().remove(0)
}
fn judge(data: &Array2<f32>, dens: &[Vec<f32>], ranges: &[(f32, f32)], r: &ClusteringResponse<f32>) {
    let (n, dims) = (data.shape()[0], data.shape()[1]);
    vx::check(r.labels.len() == n, 2);
    // numbered in order of first appearance
    let mut next = 0;
    for l in r.labels.iter() {
        vx::check(*l <= next, 3);
        if *l == next { next += 1; }
    }
    vx::check(r.cluster_centers.shape() == [next, dims], 3);
    for d in 0..dims {
        let (lo, hi) = ranges[d];
        let (g0, step) = (lo - 0.1 * (hi - lo), 1.2 * (hi - lo) / (N - 1) as f32);
        let e = &dens[d];
        let mut peaks = vec![];
        for i in 1..N - 1 {
            if e[i] > e[i - 1] && e[i] > e[i + 1] { peaks.push(g0 + i as f32 * step); }
        }
        if peaks.is_empty() {
            for i in 0..n { vx::check(r.cluster_centers[[r.labels[i], d]] == r.cluster_centers[[r.labels[0], d]], 4); }
            continue;
        }
        if peaks.len() > 1 { vx::cover(2); }
        for i in 0..n {
            let c = r.cluster_centers[[r.labels[i], d]];
            let mut own = None;
            for (k, p) in peaks.iter().enumerate() { if close(c, *p, 0.3 * step) { own = Some(k); } }
            vx::check(own.is_some(), 5);
            let dist = (data[[i, d]] - c).abs();
            for p in peaks.iter() { vx::check(dist <= (data[[i, d]] - p).abs() + 0.02 * step, 6); }
        }
    }
    // same label exactly if same centers
    for a in 0..next {
        for b in 0..a {
            let mut same = true;
            for d in 0..dims { if r.cluster_centers[[a, d]] != r.cluster_centers[[b, d]] { same = false; } }
            vx::check(!same, 7);
        }
    }
}
vx::entry! { vh_labels(n, dims, m, at) {
    // the extremes of every column are fixed: -1 and 3 (x (d+1)), at arbitrary rows
    let lo_row = vx::choose(n);
    let hi_row = (lo_row + 1 + vx::choose(n - 1)) % n;
    let ranges: Vec<(f32, f32)> = (0..dims).map(|d| (-1.0 * (d + 1) as f32, 3.0 * (d + 1) as f32)).collect();
    let data = Array2::from_shape_fn((n, dims), |(i, d)| if i == lo_row { ranges[d].0 } else if i == hi_row { ranges[d].1 } else { within(ranges[d].0, ranges[d].1) });
    let dens: Vec<Vec<f32>> = (0..dims).map(|d| density(m, if at >= 3 { at + d } else { (at + d) % 3 })).collect();
    let r = cluster(data.clone(), &dens);
    judge(&data, &dens, &ranges, &r);
    if r.cluster_centers.shape()[0] > 1 { vx::cover(1); }
} }
// a density with two given peaks: all values
vx::entry! { vh_nearest(n, dims, p, q) {
    let ranges: Vec<(f32, f32)> = (0..dims).map(|_| (0.0, 10.0)).collect();
    let data = Array2::from_shape_fn((n, dims), |(i, d)| if i == d { 0.0 } else if i == (d + 1) % n { 10.0 } else { within(0.0, 10.0) });
    let mut e = vec![0.0; N];
    e[p] = 1.0;
    e[q] = 2.0;
    e[200] = 1.5;
    let dens: Vec<Vec<f32>> = (0..dims).map(|_| e.clone()).collect();
    let r = cluster(data.clone(), &dens);
    judge(&data, &dens, &ranges, &r);
    vx::cover(3);
} }
// the real density estimation of few values, some of them or all of them equal
vx::entry! { vh_equal(n, dims, c, t) {
    out().clear();
    let data = Array2::from_shape_fn((n, dims), |(_, d)| [2.0, 2.5, -1.0][vx::choose(c)] + d as f32);
    let a = MultiKDEActor::new(Recipient::vx_from_fn(0, deliver), t).start();
    a.do_send(MultiKDEMessage { data: data.clone() });
    sched::run_all();
    vx::check(out().len() == 1, 1);
    let r = out().remove(0);
    vx::check(r.labels.len() == n, 2);
    for i in 0..n {
        for j in 0..i {
            let mut same = true;
            for d in 0..dims { if data[[i, d]] != data[[j, d]] { same = false; } }
            if same { vx::check(r.labels[i] == r.labels[j], 8); }
        }
    }
    vx::cover(4);
} }
// many fixed values and peaks
vx::entry! { vh_large(n, dims, peaks, seed) {
    let mut x = seed as u64 * 7919 + 12345;
    let mut rnd = |m: usize| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) as usize) % m };
    let ranges: Vec<(f32, f32)> = (0..dims).map(|d| (-2.0 - d as f32, 6.0 + 3.0 * d as f32)).collect();
    let data = Array2::from_shape_fn((n, dims), |(i, d)| if i == d { ranges[d].0 } else if i == d + 1 { ranges[d].1 } else { ranges[d].0 + (ranges[d].1 - ranges[d].0) * rnd(1000) as f32 / 1000.0 });
    let dens: Vec<Vec<f32>> = (0..dims).map(|_| {
        let mut e: Vec<f32> = (0..N).map(|i| 0.001 * (i as f32 - 125.0).abs()).collect();
        for _ in 0..peaks { let i = 1 + rnd(N - 2); e[i] = 0.5 + 0.01 * rnd(40) as f32; }
        e
    }).collect();
    let r = cluster(data.clone(), &dens);
    judge(&data, &dens, &ranges, &r);
} }
