//@ include graph.rs
//@ include score.rs

// `threads` workers, any completion order; one symbolic edge list
fn run(n: usize, points: usize, ql: usize, threads: usize, any: bool) {
    let es = any_edges(n, 2, 1, points - 2, true);
    vx::assume(es[n - 1].id > 0);
    deliver(es, points, ql, threads, any);
}
fn deliver(es: Vec<E>, points: usize, ql: usize, threads: usize, any: bool) {
    let n = es.len();
    // the graph of the run: weights and degrees are determined before the workers start
    let want = raw(&es, points, ql);
    let w: Vec<f32> = want.iter().map(|x| -(x.0 as f32) / x.1 as f32).collect();
    let lo = w.iter().copied().fold(f32::MAX, f32::min);
    let hi = w.iter().copied().fold(f32::MIN, f32::max);
    vx::assume(hi - lo > 1e-4);
    let mut p = Parameters::default();
    p.query_length = ql;
    p.n_threads = threads;
    let a = Training::init(p).start();
    sched::run_all();
    sched::with(&a, |t| {
        t.data_store.add_edges(es.iter().map(|e| e.edge()).collect());
        t.num_rotated = Some(points);
        t.sink = Some(sink());
    });
    if any { sched::set_mode(sched::Mode::Any); }
    a.do_send(EdgeEstimationDone);
    sched::run_all();
    let g = got();
    vx::check(g.len() == 1, 1);
    vx::check(g[0].len() == w.len(), 2);
    for i in 0..w.len() { vx::check(near(g[0][i], (w[i] - lo) / (hi - lo)), 3); }
    if threads > 1 { vx::cover(1); }
    if want.len() > 1 && want[want.len() - 1] == want[want.len() - 2] && es[n - 1].id + ql < points { vx::cover(2); }
}
vx::entry! { vh_threads(n, points, ql, threads) { run(n, points, ql, threads, false) } }
vx::entry! { vh_order(n, points, ql, threads) { run(n, points, ql, threads, true) } }


// longer runs: a fixed graph, any last point with an edge, any completion order
vx::entry! { vh_long(points, ql, threads, d) {
    let last = 1 + vx::choose(points - 2);
    let mut es = vec![];
    let mut prev = (0, 0);
    for i in 0..=last {
        for j in 0..(i * 7 + 3) % 3 {
            let t = ((i * i + j) % 3, (i + j) % 2);
            es.push(E { f: prev, t, fid: i, id: i });
            prev = t;
        }
    }
    vx::assume(es.len() > 1 && es[es.len() - 1].id > 0);
    deliver(es, points, ql, threads, true)
} }
// large fixed graphs, default order
vx::entry! { vh_large(n, points, ql, threads) {
    let es = fixed_edges(n, 4, 3, points - 2, vx::choose(3), true);
    deliver(es, points, ql, threads, false)
} }
