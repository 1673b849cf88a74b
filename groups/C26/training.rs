//@ include t.rs
use ndarray::Array2;
use crate::training::messages::DetectionResponse;

static mut GOT: Vec<Vec<f32>> = Vec::new();
fn take(_: usize, m: DetectionResponse) {
    unsafe { (*std::ptr::addr_of_mut!(GOT)).push(m.anomaly_score.to_vec()) }
}
fn params(threads: usize, variant: usize) -> Parameters {
    let mut p = Parameters::default();
    p.pattern_length = if variant == 1 { 12 } else { 10 };
    p.latent = if variant == 1 { 4 } else { 5 };
    p.rate = 10;
    p.query_length = 12 + variant;
    p.n_threads = threads;
    p.self_correction = true;
    if variant == 1 {
        p.explainability = true;
        p.anomaly_contribution_output_path = vx::scratch("contribution.csv");
    }
    p
}
fn series(rows: usize, cols: usize, variant: usize) -> Array2<f32> {
    let mut seed = 17 * (variant + 1);
    Array2::from_shape_fn((rows, cols), |(i, d)| {
        let x = i as f32 * 0.7 + d as f32;
        let odd = if i > rows / 2 && i < rows / 2 + 6 { 0.8 } else { 0.0 };
        seed = (seed * 1103 + 12345) % 65536;
        x.sin() + odd * (2.3 * x).cos() + 0.3 * (seed as f32 / 65536.0 - 0.5)
    })
}
fn whole(rows: usize, cols: usize, threads: usize, variant: usize, mode: sched::Mode) -> Vec<f32> {
    sched::reset();
    unsafe { GOT = Vec::new() };
    let p = params(threads, variant);
    let want = rows - p.pattern_length + 1 - p.query_length;
    let a = Training::init(p).start();
    sched::run_all();
    sched::set_mode(mode);
    a.do_send(StartTrainingMessage { nodes: Default::default(), source: Some(Recipient::vx_from_fn(0, take)), data: Some(series(rows, cols, variant)) });
    sched::run_all();
    let g = unsafe { (*std::ptr::addr_of!(GOT)).clone() };
    vx::check(g.len() == 1, 1);
    vx::check(g[0].len() == want, 2);
    g[0].clone()
}
vx::entry! { vh_run(rows, threads, few, variant) {
    let cols = 2 + variant % 2;
    let want = whole(rows, cols, threads, variant, sched::Mode::Fifo);
    let got = whole(rows, cols, threads, variant, sched::Mode::Few(few));
    for i in 0..want.len() {
        vx::check(got[i].is_finite() && got[i] == want[i], 3);
    }
    vx::scratch_done();
    vx::cover(1);
    if want.iter().any(|x| *x > 0.2 && *x < 0.8) { vx::cover(3); }
} }
vx::entry! { vh_fit(rows, threads, few, cols) {
    let want = whole(rows, cols, threads, 0, sched::Mode::Fifo);
    sched::reset();
    sched::set_mode(sched::Mode::Few(few));
    let r = Training::init(params(threads, 0)).fit(series(rows, cols, 0)).unwrap();
    vx::check(r.len() == want.len(), 2);
    for i in 0..want.len() { vx::check(r[i] == want[i], 3); }
    vx::cover(2);
} }
