//@ include graph.rs
//@ include cluster.rs
//@ include score.rs
use crate::training::scoring::messages::ScoreInitDone;
use crate::data_manager::DatasetStats;
use ndarray::arr1;

// raw window scores per cluster node and how many windows have edges
static mut RAWS: Vec<(Vec<f32>, usize)> = Vec::new();
fn raws() -> &'static mut Vec<(Vec<f32>, usize)> {
    unsafe { &mut *std::ptr::addr_of_mut!(RAWS) }
}
/// worker: like the real one, but with the given window scores
fn helper(h: &mut ScoringHelper, m: ScoringHelperInstruction, _: &mut actix::SyncContext<ScoringHelper>) {
    let (r, filled) = &raws()[sched::node()];
    let mut scores: Vec<f32> = vec![];
    let mut first_empty = false;
    for i in m.start..m.start + m.length {
        scores.push(if i >= *filled {
            match scores.last() {
                Some(l) => *l,
                None => { first_empty = true; 0.0 }
            }
        } else { r[i] });
    }
    h.receiver.do_send(ScoringHelperResponse { start: m.start, scores, first_empty });
}
const QL: usize = 2;
fn start(k: usize, len: usize, threads: usize) -> Vec<Addr<Training>> {
    sched::stub::<ScoringHelper, ScoringHelperInstruction>(helper);
    let mut p = Parameters::default();
    p.query_length = QL;
    p.n_threads = threads;
    let ts = cluster(k, &p);
    for i in 0..k {
        let own = if i == k - 1 { len + QL } else { len };
        sched::with(&ts[i], |t| {
            t.num_rotated = Some(own);
            t.transposition.range_start_point = Some(i * len);
            t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), len * k));
            t.data_store.add_edges(vec![E { f: (0, 0), t: (1, 0), fid: i * len, id: i * len }.edge(), E { f: (0, 0), t: (1, 0), fid: i * len, id: i * len + (len > 1) as usize }.edge()]);
            t.sink = Some(sink_of(i));
        });
    }
    ts
}
/// the windows as one sequence; missing ones take the value before
fn joined(k: usize, len: usize) -> Vec<f32> {
    let mut out: Vec<f32> = vec![];
    for i in 0..k {
        for j in 0..len {
            let (r, filled) = &raws()[i];
            let v = if j < *filled { r[j] } else { out[out.len() - 1] };
            out.push(v);
        }
    }
    out
}
/// the own part of the scoring starts at any time
fn run(ts: &[Addr<Training>], mode: sched::Mode) {
    sched::set_mode(mode);
    for (i, t) in ts.iter().enumerate() {
        sched::with(t, |t| t.scoring.edges_in_time = t.count_edges_in_time());
        let t = t.clone();
        sched::remote(ts.len(), i, Box::new(move || t.do_send(ScoreInitDone)));
    }
    sched::run_all();
}
fn verify(k: usize, len: usize) {
    let w = joined(k, len);
    let lo = w.iter().copied().fold(f32::MAX, f32::min);
    let hi = w.iter().copied().fold(f32::MIN, f32::max);
    for i in 0..k {
        let g = got_of(i);
        vx::check(g.len() == 1, 1);
        let g = &g[0];
        vx::check(g.len() == k * len, 2);
        let t = vx::tol(1e-3, 1e-5) * (hi - lo);
        for j in 0..k * len {
            let d = g[j] * (hi - lo) - (w[j] - lo);
            vx::check((d < t) & (d > -t), 3);
        }
    }
}
// concrete distinct scores, any nodes without edges, any order
fn order(k: usize, len: usize, all: usize, threads: usize) {
    raws().clear();
    for i in 0..k {
        let filled = if all == 2 { if i == 0 { len / 2 + vx::choose(2) * (len - len / 2) } else { vx::choose(3) * len / 2 } } else if i == 0 { 1 + vx::choose(len) } else { vx::choose(len + 1) };
        raws().push(((0..len).map(|j| -1.0 - ((i * len + j) * 5 % 7) as f32 - 0.01 * (i * len + j) as f32).collect(), filled));
        if filled == 0 { vx::cover(2); }
    }
    let w = joined(k, len);
    vx::assume(w.iter().any(|x| *x != w[0]));
    let ts = start(k, len, threads);
    run(&ts, match all { 1 => sched::Mode::Any, 2 => sched::Mode::Fifo, _ => sched::Mode::At(vx::choose(k)) });
    verify(k, len);
    vx::cover(1);
}
vx::entry! { vh_order(k, len, threads, d) { order(k, len, 1, threads) } }
vx::entry! { vh_at(k, len, threads, d) { order(k, len, 0, threads) } }
vx::entry! { vh_large(k, len, threads, d) { order(k, len, 2, threads) } }
// arbitrary scores
vx::entry! { vh_join(k, len, threads, d) {
    raws().clear();
    for i in 0..k {
        let filled = if i == 0 { len } else { vx::choose(2) * len };
        let mut v = vec![];
        for _ in 0..len {
            let x = vx::float();
            vx::assume((x <= -0.01) & (x >= -100.0));
            v.push(x);
        }
        raws().push((v, filled));
    }
    let w = joined(k, len);
    let mut varied = false;
    for i in 1..w.len() { varied = varied | (w[i] > w[0] + 0.01) | (w[i] < w[0] - 0.01); }
    vx::assume(varied);
    let ts = start(k, len, threads);
    run(&ts, sched::Mode::Fifo);
    verify(k, len);
    vx::cover(3);
} }
