//@ include t.rs
use crate::data_store::point::Point;
use crate::data_store::transition::Transition;

/// transitions with arbitrary segments that segmentation can produce
fn borders(n: usize, rate: usize, dims: usize, id0: usize, fixed: Option<usize>) {
    let mut p = Parameters::default();
    p.rate = rate;
    if let Some(c) = fixed { p.n_threads = 1 + c % 3; }
    let a = mk(p);
    let mut tr = vec![];
    let mut coords = vec![];
    for d in 0..dims { coords.push((1.0f32 + d as f32, 1.37f32 - 0.31 * d as f32)); }
    for i in 0..n {
        let (s, d) = match fixed {
            Some(c) => ((37 * i + 11 * c) % rate, if i % 5 == 4 { rate / 2 } else { 1 + (13 * i + 7 * c) % (rate / 2) }),
            None => (vx::range(0, rate - 1), vx::range(1, rate / 2)),
        };
        let t = (s + d) % rate;
        // ids need not be consecutive
        let id = id0 + 3 * i;
        let f = 1.0 + i as f32;
        let from: Vec<f32> = coords.iter().map(|c| c.0 * f).collect();
        let to: Vec<f32> = coords.iter().map(|c| c.1 * f + 0.113).collect();
        sched::with(&a, |x| x.data_store.add_transition(Transition::new(
            Point::new(id, ndarray::Array1::from(from), s).into_ref(),
            Point::new(id + 1, ndarray::Array1::from(to), t).into_ref(),
        )));
        tr.push((s, d, id));
    }
    a.do_send(SegmentedMessage);
    until("::IntersectionCalculationDone");
    vx::check(held(0, "::IntersectionCalculationDone"), 1);
    let per_seg: Vec<Vec<(usize, usize)>> = (0..rate).map(|k| sched::with(&a, |x| match x.data_store.get_intersections_from_segment(k) {
        Some(v) => v.iter().map(|i| (i.get_segment_id(), i.get_from_id())).collect(),
        None => vec![],
    })).collect();
    let mut crossed = 0;
    for k in 0..rate {
        let have = &per_seg[k];
        for h in have.iter() { vx::check(h.0 == k, 2); }
        let mut want = 0;
        for (s, d, id) in tr.iter() {
            let dist = if k >= *s { k - *s } else { k + rate - *s };
            let crosses = (dist >= 1) & (dist <= *d);
            let got = have.iter().filter(|h| h.1 == *id).count();
            vx::check((got == 1) == crosses, 3);
            vx::check(got <= 1, 4);
            want += crosses as usize;
        }
        vx::check(have.len() == want, 5);
        crossed += have.len();
    }
    if crossed > n { vx::cover(1); }
    // some transition passes the border of segment 0 and continues
    if tr.iter().any(|(s, d, _)| *s + *d > rate) { vx::cover(2); }
}
vx::entry! { vh_borders(n, rate, dims, id0) { borders(n, rate, dims, id0, None) } }
vx::entry! { vh_one(rate, dims, id0, d) { borders(1, rate, dims, id0, None) } }
// many transitions at the rates in use
vx::entry! { vh_many(n, rate, dims, id0) { borders(n, rate, dims, id0, Some(vx::choose(3))) } }
