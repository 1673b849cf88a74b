use crate::data_manager::DatasetStats;
use ndarray::arr1;

const PL: usize = 2;
/// k machines after the edge estimation; every edge lies on the machine that owns the segment of its start node
fn start(k: usize, rows: usize, ql: usize, threads: usize, es: &[E]) -> Vec<Addr<Training>> {
    let mut p = Parameters::default();
    p.query_length = ql;
    p.pattern_length = PL;
    p.latent = 1;
    p.rate = 2 * k;
    p.n_threads = threads;
    let ts = cluster(k, &p);
    let part = rows / k;
    for i in 0..k {
        let own = if i == k - 1 { rows - (k - 1) * part - (PL - 1) } else { part };
        sched::with(&ts[i], |t| {
            t.num_rotated = Some(own);
            t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), rows));
            t.data_store.add_edges(es.iter().filter(|e| e.f.0 / 2 == i).map(|e| e.edge()).collect());
            t.sink = Some(sink_of(i));
        });
    }
    ts
}
fn run(ts: &[Addr<Training>], mode: sched::Mode) {
    sched::set_mode(mode);
    for (i, t) in ts.iter().enumerate() {
        let t = t.clone();
        sched::remote(ts.len(), i, Box::new(move || t.do_send(EdgeEstimationDone)));
    }
    sched::run_all();
}
/// a path through the graph: transitions at increasing points; a transition crosses consecutive segments, at most half
/// of all; every edge starts where the one before ended
fn path(n: usize, k: usize, points: usize) -> Vec<E> {
    let rate = 2 * k;
    let mut es: Vec<E> = vec![];
    let mut id = 0;
    let mut f = (vx::choose(rate), 0);
    let mut fid = 0;
    let mut left = 0;
    for i in 0..n {
        let t;
        if left == 0 {
            let least = if i > 0 { id + 1 } else { 0 };
            vx::assume(least < points - 1);
            id = least + vx::choose(points - 1 - least);
            left = 1 + vx::choose(k.min(n - i));
            t = (vx::choose(rate), 0);
        } else {
            t = ((f.0 + 1) % rate, 0);
        }
        es.push(E { f, t, fid, id });
        fid = id;
        f = t;
        left -= 1;
    }
    es
}
fn verify(k: usize, points: usize, ql: usize, es: &[E]) {
    let w: Vec<f32> = raw(es, points, ql).iter().map(|x| -(x.0 as f32) / x.1 as f32).collect();
    let lo = w.iter().copied().fold(f32::MAX, f32::min);
    let hi = w.iter().copied().fold(f32::MIN, f32::max);
    for i in 0..k {
        let g = got_of(i);
        vx::check(g.len() == 1, 1);
        vx::check(g[0].len() == points - ql, 2);
        for j in 0..w.len() { vx::check(near(g[0][j], (w[j] - lo) / (hi - lo)), 3); }
    }
}
fn varied(points: usize, ql: usize, es: &[E]) -> bool {
    let w: Vec<f32> = raw(es, points, ql).iter().map(|x| -(x.0 as f32) / x.1 as f32).collect();
    w.iter().any(|x| (*x - w[0]).abs() > 1e-4)
}
// any path, any times, default order
vx::entry! { vh_same(k, rows, ql, n) {
    let points = rows - (PL - 1);
    let es = path(n, k, points);
    vx::assume(es[n - 1].id > 0);
    vx::assume(varied(points, ql, &es));
    if es[0].id >= rows / k { vx::cover(1); }
    if es[n - 2].id == es[n - 1].id && es[n - 2].f.0 / 2 != es[n - 1].f.0 / 2 { vx::cover(2); }
    let ts = start(k, rows, ql, 1, &es);
    run(&ts, sched::Mode::Fifo);
    verify(k, points, ql, &es);
} }
// few paths, every order of the messages at one machine
vx::entry! { vh_any(k, rows, ql, n) {
    let points = rows - (PL - 1);
    let mut es: Vec<E> = vec![];
    let v = vx::choose(3);
    let (mut id, mut f) = (0, (v, 0));
    for i in 0..n {
        let to = id + (i + v) % 3;
        let t = ((f.0 + if i > 0 && to == id { 1 } else { 1 + (i * (v + 1)) % 3 }) % (2 * k), 0);
        es.push(E { f, t, fid: id, id: to });
        id = to;
        f = t;
    }
    vx::assume(id < points - 1);
    vx::assume(varied(points, ql, &es));
    let ts = start(k, rows, ql, 2, &es);
    run(&ts, sched::Mode::At(vx::choose(k)));
    verify(k, points, ql, &es);
    vx::cover(3);
} }
// longer fixed paths, default order
vx::entry! { vh_large(k, rows, ql, n) {
    let points = rows - (PL - 1);
    let mut x = 99 + vx::choose(4) as u64;
    let mut next = |m: usize| { x = (x * 1103515245 + 12345) % 2147483648; (x >> 8) as usize % m };
    let mut es: Vec<E> = vec![];
    let (mut id, mut f, mut fid, mut left) = (0, (next(2 * k), 0), 0, 0);
    while es.len() < n {
        let t;
        if left == 0 {
            let step = 1 + next(4) * next(2);
            if id + step > points - 2 { break; }
            if !es.is_empty() { id += step; }
            left = 1 + next(k);
            t = (next(2 * k), next(2));
        } else {
            t = ((f.0 + 1) % (2 * k), next(2));
        }
        es.push(E { f, t, fid, id });
        fid = id;
        f = t;
        left -= 1;
    }
    vx::assume(varied(points, ql, &es));
    let ts = start(k, rows, ql, 3, &es);
    run(&ts, sched::Mode::Fifo);
    verify(k, points, ql, &es);
    vx::cover(4);
} }
// a fixed path; any machine becomes slow at any step
vx::entry! { vh_slow(k, rows, ql, steps) {
    let points = rows - (PL - 1);
    let mut es: Vec<E> = vec![];
    let (mut id, mut f) = (0, (1, 0));
    for i in 0.. {
        let to = id + i % 3;
        if to > points - 2 { break; }
        let t = ((f.0 + if i > 0 && to == id { 1 } else { 1 + i % 3 }) % (2 * k), 0);
        es.push(E { f, t, fid: id, id: to });
        id = to;
        f = t;
    }
    vx::assume(varied(points, ql, &es));
    let ts = start(k, rows, ql, 2, &es);
    run(&ts, sched::Mode::Lag(vx::choose(k), vx::choose(steps)));
    verify(k, points, ql, &es);
    vx::cover(5);
} }
