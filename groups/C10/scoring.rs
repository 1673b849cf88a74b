//@ include graph.rs
//@ include score.rs

static mut RAW: Vec<(usize, Vec<f32>)> = Vec::new();
fn capture(_: &mut Training, m: ScoringHelperResponse, _: &mut Context<Training>) {
    unsafe { (*std::ptr::addr_of_mut!(RAW)).push((m.start, m.scores)) }
}

fn start(p: Parameters, es: &[E], points: usize) -> Addr<Training> {
    let a = Training::init(p).start();
    sched::run_all();
    sched::with(&a, |t| {
        t.data_store.add_edges(es.iter().map(|e| e.edge()).collect());
        t.num_rotated = Some(points);
        t.sink = Some(sink());
    });
    a.do_send(EdgeEstimationDone);
    a
}
fn edges(n: usize, points: usize, chain: bool) -> Vec<E> {
    let es = if n > 10 { fixed_edges(n, if n > 40 { 9 } else { 3 }, 3, points - 2, vx::choose(3), chain) } else { any_edges(n, 2, 1, points - 2, chain) };
    // some edge after the first point
    vx::assume(es[n - 1].id > 0);
    es
}
fn params(ql: usize, threads: usize) -> Parameters {
    let mut p = Parameters::default();
    p.query_length = ql;
    p.n_threads = threads;
    p
}

// raw scores of one machine
vx::entry! { vh_raw(n, points, ql, chain) {
    let es = edges(n, points, chain == 1);
    sched::stub::<Training, ScoringHelperResponse>(capture);
    let _a = start(params(ql, 1), &es, points);
    sched::run_all();
    let want = raw(&es, points, ql);
    let mut r = unsafe { (*std::ptr::addr_of_mut!(RAW)).clone() };
    r.sort_by(|a, b| a.0.cmp(&b.0));
    let have: Vec<f32> = r.into_iter().flat_map(|x| x.1).collect();
    vx::check(have.len() == points - ql, 1);
    vx::check(want.len() == have.len(), 1);
    for i in 0..want.len() {
        vx::check(near(have[i], -(want[i].0 as f32) / want[i].1 as f32), 2);
        if i > 0 && want[i].0 * want[0].1 != want[0].0 * want[i].1 { vx::cover(1); }
    }
    if es[n - 1].id + ql < points { vx::cover(2); }
} }

// what the caller gets
vx::entry! { vh_final(n, points, ql, chain) {
    let es = edges(n, points, chain == 1);
    let want = raw(&es, points, ql);
    let w: Vec<f32> = want.iter().map(|x| -(x.0 as f32) / x.1 as f32).collect();
    let lo = w.iter().copied().fold(f32::MAX, f32::min);
    let hi = w.iter().copied().fold(f32::MIN, f32::max);
    vx::assume(hi - lo > 1e-4);
    let _a = start(params(ql, 2), &es, points);
    sched::run_all();
    let g = got();
    vx::check(g.len() == 1, 3);
    vx::check(g[0].len() == points - ql, 1);
    for i in 0..w.len() { vx::check(near(g[0][i], (w[i] - lo) / (hi - lo)), 4); }
    vx::cover(3);
} }
