use crate::training::verif::vx_kde_actors::two_clusters;
use ndarray::Array1;

fn params(rate: usize) -> Parameters {
    let mut p = Parameters::default();
    p.rate = rate;
    p.n_threads = 1;
    p
}
/// a point in the middle of its segment
fn at(seg: usize, rate: usize) -> Array1<f32> {
    let a = std::f32::consts::PI * (2 * seg + 1) as f32 / rate as f32;
    arr1(&[a.cos(), a.sin()])
}
fn put(t: &mut Training, segs: &[usize], from: usize, total: usize) {
    let rate = t.parameters.rate;
    let points = segs.iter().map(|s| at(*s, rate)).collect();
    t.data_store.add_points_with_offset(points, from, rate);
    for p in t.data_store.get_points() { vx::check(p.get_segment() == segs[p.get_id() - from], 9); }
    t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), total));
}
type N = (usize, usize, usize);
type G = Vec<(N, N)>;
fn graph(t: &mut Training) -> G {
    t.data_store.get_edges().iter().map(|e| {
        let (f, o) = (e.get_from_node(), e.get_to_node());
        ((f.get_from_id(), f.get_segment_id(), f.get_cluster()), (o.get_from_id(), o.get_segment_id(), o.get_cluster()))
    }).collect()
}
fn valid(a: usize, b: usize, rate: usize) -> usize {
    let d = (b + rate - a) % rate;
    if d <= rate / 2 { d } else { 0 }
}
/// one machine: the borders crossed in order of time
fn borders(segs: &[usize], rate: usize) -> Vec<N> {
    let mut v = vec![];
    for i in 1..segs.len() {
        let d = valid(segs[i - 1], segs[i], rate);
        // points lie on the unit circle, in the middle of their segments
        let a = std::f32::consts::PI / rate as f32;
        for b in 1..d + 1 {
            let r = (a * d as f32).cos() / (a * (2 * b as i32 - 1 - d as i32) as f32).cos();
            v.push((i - 1, (segs[i - 1] + b) % rate, (r * r < 0.4) as usize));
        }
    }
    // a single intersection is not clustered
    let alone: Vec<bool> = v.iter().map(|x: &N| v.iter().filter(|y| y.1 == x.1).count() == 1).collect();
    for (x, a) in v.iter_mut().zip(alone) { if a { x.2 = 0; } }
    v
}
const STAGES: [&str; 4] = ["::SegmentedMessage", "::IntersectionCalculationDone", "::NodeEstimationDone", "::EdgeEstimationDone"];
fn run(k: usize, n: usize, rate: usize, segs: &[usize], want: &[usize], self_correction: bool, mode: usize) {
    two_clusters();
    let mut p = params(rate);
    p.self_correction = self_correction;
    let ts = cluster(k, &p);
    for i in 0..k {
        sched::with(&ts[i], |t| put(t, &segs[i * n..(i + 1) * n], i * n, k * n));
    }
    match mode {
        0 => {}
        1 => sched::set_mode(sched::Mode::Any),
        m if m > 9 => sched::set_mode(sched::Mode::Lag(vx::choose(k), vx::choose(m))),
        2 | 3 => sched::set_mode(sched::Mode::At(vx::choose(k))),
        _ => {}
    }
    for (i, t) in ts.iter().enumerate() {
        let t = t.clone();
        if mode == 0 || (4..10).contains(&mode) { t.do_send(RotationDoneMessage) } else { sched::remote(k, i, Box::new(move || t.do_send(RotationDoneMessage))); }
    }
    // in parts: any order from one stage to the next but one
    if (4..10).contains(&mode) {
        until(STAGES[mode - 4]);
        sched::set_mode(sched::Mode::At(vx::choose(k)));
    }
    if (3..10).contains(&mode) {
        until(STAGES[mode - 2]);
        sched::set_mode(sched::Mode::Fifo);
    }
    until(STAGES[3]);
    let mut g: G = vec![];
    for i in 0..k {
        vx::check(sched::held_once(i, "::EdgeEstimationDone"), 1);
        let part = sched::with(&ts[i], |t| graph(t));
        g.extend(part);
    }
    let b = borders(want, rate);
    let mut want: G = (1..b.len()).map(|i| (b[i - 1], b[i])).collect();
    want.sort();
    g.sort();
    vx::note(1, segs.iter().fold(0u64, |a, s| a.wrapping_mul(10).wrapping_add(*s as u64)));
    vx::check(g.len() == want.len(), 2);
    vx::check(g == want, 3);
    vx::cover(1);
}
/// parts without any transition
fn each_part(k: usize, n: usize, rate: usize, segs: &[usize]) {
    for i in 0..k {
        let part = &segs[i * n..(i + 1) * n];
        if !(1..n).any(|j| valid(part[j - 1], part[j], rate) > 0) { vx::cover(5); }
    }
}
fn path(k: usize, n: usize, rate: usize) -> Vec<usize> {
    let mut segs: Vec<usize> = vec![];
    for i in 0..k * n {
        let s = vx::choose(rate);
        segs.push(s);
        let _ = i;
    }
    each_part(k, n, rate, &segs);
    segs
}
vx::entry! { vh_graph(k, n, rate, d) { let s = path(k, n, rate); run(k, n, rate, &s, &s, false, 0) } }
vx::entry! { vh_walk(k, n, rate, d) { let s = walk(k, n, rate, 0); run(k, n, rate, &s, &s, d > 0, 0) } }
/// every step has the same number of borders, but one
fn walk(k: usize, n: usize, rate: usize, few: usize) -> Vec<usize> {
    let mut s = if few == 1 { 1 } else { vx::choose(rate) };
    let (step, other, when) = if few == 1 { (1, 2, 1) } else { (1 + vx::choose(2), vx::choose(rate), vx::choose(k * n)) };
    let mut segs = vec![];
    for i in 0..k * n {
        segs.push(s);
        s = (s + if i == when { other } else { step }) % rate;
    }
    each_part(k, n, rate, &segs);
    segs
}
/// crossings within the parts: counter-clockwise, clockwise
fn crossings(k: usize, n: usize, rate: usize, segs: &[usize]) -> (usize, usize) {
    let (mut ccw, mut cw) = (0, 0);
    for i in 0..k {
        for j in i * n + 1..(i + 1) * n {
            if valid(segs[j - 1], segs[j], rate) > 0 { ccw += 1; } else if segs[j - 1] != segs[j] { cw += 1; }
        }
    }
    (ccw, cw)
}
vx::entry! { vh_correct(k, n, rate, mode) {
    let s: Vec<usize> = if mode == 0 { (0..k * n).map(|_| vx::choose(rate)).collect() } else { (0..k * n).map(|i| (2 * rate - i) % rate).collect() };
    let (ccw, cw) = crossings(k, n, rate, &s);
    let want: Vec<usize> = if ccw < cw { vx::cover(2); s.iter().map(|x| (rate / 2 + rate - 1 - x) % rate).collect() } else { s.clone() };
    if ccw < cw && cw <= 2 * ccw { vx::cover(3); }
    each_part(k, n, rate, &want);
    run(k, n, rate, &s, &want, true, mode);
} }
vx::entry! { vh_part(k, n, rate, d) { let s = walk(k, n, rate, 1); run(k, n, rate, &s, &s, false, 3 + d) } }
vx::entry! { vh_order(k, n, rate, d) { let s = walk(k, n, rate, d); run(k, n, rate, &s, &s, false, 1) } }
vx::entry! { vh_at(k, n, rate, d) { let s = walk(k, n, rate, d); run(k, n, rate, &s, &s, false, 2) } }
// long fixed sequences of steps of all kinds (d odd: with self-correction)
vx::entry! { vh_long(k, n, rate, d) {
    let seed = vx::choose(3);
    {
        let mut x = (seed + 5 * d) as u64 * 7919 + 12345;
        let mut s = 0;
        let mut segs = vec![];
        for _ in 0..k * n {
            segs.push(s);
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = (x >> 33) as usize;
            // mostly short steps forward (seed 2: backward), sometimes any
            let step = if r % 4 < 3 { (r / 4) % 4 } else { (r / 4) % rate };
            s = (s + if seed == 2 { rate - step % rate } else { step }) % rate;
        }
        let (ccw, cw) = crossings(k, n, rate, &segs);
        let want: Vec<usize> = if d % 2 == 1 && ccw < cw { segs.iter().map(|x| (rate / 2 + rate - 1 - x) % rate).collect() } else { segs.clone() };
        each_part(k, n, rate, &want);
        run(k, n, rate, &segs, &want, d % 2 == 1, 0);
    }
} }
// any machine becomes slow at any step; with self-correction
vx::entry! { vh_late(k, n, rate, steps) {
    let s: Vec<usize> = (0..k * n).map(|i| (2 * rate * k * n - i - i / 5) % rate).collect();
    let want: Vec<usize> = s.iter().map(|x| (rate / 2 + rate - 1 - x) % rate).collect();
    each_part(k, n, rate, &want);
    run(k, n, rate, &s, &want, true, steps);
    vx::cover(4);
} }
