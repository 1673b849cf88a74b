//@ include dm.rs
use crate::data_manager::preprocessor::verif::{verify, watch};
fn small(cols: usize, threads: usize, any: bool, k: usize) {
    let cols = 1 + vx::choose(cols);
    let threads = 1 + vx::choose(threads);
    run(cols, threads, any, k)
}
fn run(cols: usize, threads: usize, any: bool, k: usize) {
    let mut p = Parameters::default();
    p.pattern_length = 2;
    p.latent = 1;
    p.n_threads = threads;
    watch();
    let ms = managers(1, &p);
    let data = Array2::from_shape_fn((3, cols), |(i, c)| ((i * k + c) % 3) as f32);
    if any { sched::set_mode(sched::Mode::Any); }
    ms[0].do_send(LocalReadDataMessage { data });
    sched::run_all();
    vx::check(out().len() == 1, 1);
    verify(cols);
    let r = result(0).unwrap();
    vx::check(r.phase_space.shape() == [2, 1, cols], 5);
    vx::cover(1);
    if threads < cols { vx::cover(2); }
    if threads > cols { vx::cover(3); }
}
vx::entry! { vh_cols(cols, threads, k, d) { small(cols, threads, false, k) } }
vx::entry! { vh_large(cols, threads, k, d) { run(cols, threads, false, k) } }
vx::entry! { vh_order(cols, threads, k, d) { small(cols, threads, true, k) } }
