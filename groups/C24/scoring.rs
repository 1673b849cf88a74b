//@ include graph.rs
//@ include score.rs
use crate::data_store::intersection::Intersection;
use crate::data_store::point::Point;
use crate::data_store::transition::{Transition, TransitionRef};
use crate::training::verif::vx_kde_actors::clusterings;
use crate::training::IntersectionCalculationDone;
use ndarray::Array2;

struct Segment {
    labels: Vec<usize>,
    /// per cluster and dimension
    centers: Vec<Vec<f32>>,
}
/// one minus the share of the segment's intersections whose center has the same coordinate
fn rarity(s: &Segment, cluster: usize, d: usize) -> f32 {
    let c = s.centers[cluster][d];
    let n = s.labels.iter().filter(|l| s.centers[**l][d] == c).count();
    1.0 - n as f32 / s.labels.len() as f32
}
static mut ROWS_AT_END: usize = 99;
static mut PATH: String = String::new();
fn text() -> String {
    let p = unsafe { (*std::ptr::addr_of!(PATH)).clone() };
    std::fs::read_to_string(&p).unwrap_or_default()
}
fn end(n: usize, m: DetectionResponse) {
    unsafe { (*std::ptr::addr_of_mut!(GOT)).push((n, m.anomaly_score.to_vec())) }
    unsafe { ROWS_AT_END = text().lines().count() }
}
fn explain(segs: Vec<Segment>, dims: usize, es: Vec<E>, points: usize, ql: usize, threads: usize) {
    let mut p = Parameters::default();
    p.rate = segs.len();
    p.query_length = ql;
    p.n_threads = threads;
    p.explainability = true;
    p.anomaly_contribution_output_path = vx::scratch("contribution.csv");
    unsafe {
        PATH = p.anomaly_contribution_output_path.clone();
        ROWS_AT_END = 99;
    }
    clusterings(segs.iter().filter(|s| s.labels.len() > 1).map(|s| (Array2::from_shape_fn((s.centers.len(), dims), |(c, d)| s.centers[c][d]), s.labels.clone())).collect());
    let a = Training::init(p).start();
    sched::run_all();
    sched::with(&a, |t| {
        for (k, s) in segs.iter().enumerate() {
            for i in 0..s.labels.len() {
                let at = |id: usize, k: usize| Point::new(id, Array1::from(vec![1.0; dims + 1]), k).into_ref();
                let tr = TransitionRef::new(Transition::new(at(1000 * k + i, k), at(1000 * k + i + 1, (k + 1) % segs.len())));
                t.data_store.add_intersection(Intersection::new(tr, Array1::from(s.centers[s.labels[i]].clone()), k));
            }
        }
        t.num_rotated = Some(points);
        t.sink = Some(Recipient::vx_from_fn(0, end));
    });
    a.do_send(IntersectionCalculationDone);
    sched::hold_before(Some("::NodeEstimationDone"));
    sched::run_all();
    vx::check(sched::peek_local(0).map_or(false, |n| n.ends_with("::NodeEstimationDone")), 1);
    sched::drop_local(0);
    sched::hold_before(None);
    sched::with(&a, |t| t.data_store.add_edges(es.iter().map(|e| e.edge()).collect()));
    a.do_send(EdgeEstimationDone);
    sched::run_all();
    let g = got();
    vx::check(g.len() == 1, 1);
    let n = points - ql;
    vx::check(g[0].len() == n, 2);
    vx::check(unsafe { ROWS_AT_END } == n, 3);
    let text = text();
    vx::scratch_done();
    let rows: Vec<Vec<f32>> = text.lines().map(|l| l.split(',').map(|x| x.parse().unwrap()).collect()).collect();
    vx::check(rows.len() == n, 2);
    // the mean rarity over the window's edges; nothing to say: as before
    let cnt = |p: usize| es.iter().filter(|e| e.id <= p).count();
    let mut raw: Vec<Vec<f32>> = vec![];
    for i in 0..n {
        let w = &es[cnt(i)..(cnt(i + ql - 1) + 1).min(es.len())];
        let mut r = vec![0.0; dims];
        for d in 0..dims {
            for e in w { r[d] += rarity(&segs[e.f.0], e.f.1, d) / w.len() as f32; }
        }
        if r.iter().all(|x| *x < 1e-6) {
            if i > 0 { r = raw[i - 1].clone(); vx::cover(2); } else { vx::cover(3); }
        }
        raw.push(r);
    }
    // relative to the median of the dimension
    let m: Vec<f32> = (0..dims).map(|d| raw[0][d] - rows[0][d]).collect();
    for d in 0..dims {
        let mut v: Vec<f32> = raw.iter().map(|r| r[d]).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let (lo, hi) = (v[(n - 1) / 2], v[n / 2]);
        vx::check((m[d] > lo - 0.0127) & (m[d] < hi + 0.0127), 4);
    }
    for i in 0..n {
        vx::check(rows[i].len() == dims, 2);
        let mut sum = 0.0;
        for d in 0..dims { sum += raw[i][d] - m[d]; }
        let plain = (0..dims).all(|d| near(rows[i][d], raw[i][d] - m[d]));
        let again = i > 0 && (0..dims).all(|d| near(rows[i][d], rows[i - 1][d]));
        vx::check(if near(sum, 0.0) { plain || again } else { plain }, 5);
    }
    vx::cover(1);
}
fn labels(n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut next = 0;
    for _ in 0..n {
        let l = vx::choose(next + 1);
        if l == next { next += 1; }
        v.push(l);
    }
    v
}
fn segment(n: usize, dims: usize, fixed: bool) -> Segment {
    let labels = if fixed { (0..n).map(|i| i % 2).collect() } else { labels(n) };
    let k = 1 + labels.iter().max().unwrap();
    let mut centers: Vec<Vec<f32>> = vec![];
    for c in 0..k {
        // the first coordinate may coincide with that of the cluster before, then the last one differs
        let same = c > 0 && (if fixed { c % 2 == 1 } else { vx::choose(2) == 1 });
        let x = if same { centers[c - 1][0] } else { 1.0 + c as f32 };
        centers.push((0..dims).map(|d| if d == 0 { x } else { 0.01 * c as f32 - d as f32 }).collect());
    }
    Segment { labels, centers }
}
// small: any clustering of the first segment, any places of the edges
vx::entry! { vh_explain(n, dims, points, ql) {
    let segs = vec![segment(n, dims, false), segment(2, dims, true), segment(1, dims, true)];
    let nodes: Vec<(usize, usize)> = segs.iter().enumerate().flat_map(|(k, s)| (0..s.centers.len()).map(move |c| (k, c))).collect();
    let shift = vx::choose(2);
    let mut es = vec![];
    let mut id = 0;
    for j in 0..3 {
        let f = nodes[(j + shift) % nodes.len()];
        let t = nodes[(j + shift + 1) % nodes.len()];
        id += vx::choose(3);
        if id > points - 2 { id = points - 2; }
        es.push(E { f, t, fid: id, id });
    }
    vx::assume(es[2].id > 0);
    explain(segs, dims, es, points, ql, 1);
} }
// larger: a fixed graph, any sizes of the segments
vx::entry! { vh_many(n, dims, points, threads) {
    let segs: Vec<Segment> = (0..3).map(|k| segment(1 + vx::choose(n), dims, k != 1)).collect();
    let nodes: Vec<(usize, usize)> = segs.iter().enumerate().flat_map(|(k, s)| (0..s.centers.len()).map(move |c| (k, c))).collect();
    let mut es = vec![];
    for i in 1..points - 1 {
        for j in 0..(i * 5 + 1) % 3 {
            es.push(E { f: nodes[(i * i + 3 * j) % nodes.len()], t: nodes[(i + j) % nodes.len()], fid: i, id: i });
        }
    }
    explain(segs, dims, es, points, 3, threads);
} }

// larger still: everything fixed
vx::entry! { vh_large(rate, dims, points, ql) {
    let segs: Vec<Segment> = (0..rate).map(|k| {
        let n = 1 + (k * k * 3 + 5) % 14;
        let kinds = 1 + (k * 5 + 1) % 5.min(n);
        let mut labels: Vec<usize> = (0..n).map(|i| if i < kinds { i } else { (i * i + k) % kinds }).collect();
        labels.truncate(n);
        let centers = (0..kinds).map(|c| (0..dims).map(|d| if d == 0 { 1.0 + (c / 2) as f32 } else { 0.01 * c as f32 - d as f32 }).collect()).collect();
        Segment { labels, centers }
    }).collect();
    let nodes: Vec<(usize, usize)> = segs.iter().enumerate().flat_map(|(k, s)| (0..s.centers.len()).map(move |c| (k, c))).collect();
    let mut es = vec![];
    for i in 1..points - 1 {
        for j in 0..(i * i * 5 + i / 7) % 4 {
            es.push(E { f: nodes[(i * i + 3 * j) % nodes.len()], t: nodes[(i + j) % nodes.len()], fid: i, id: i });
        }
    }
    explain(segs, dims, es, points, ql, 4);
} }
