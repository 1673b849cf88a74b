//@ include t.rs
use crate::data_store::point::Point;
use crate::data_store::transition::Transition;
fn small(lim: f32) -> f32 {
    let x = vx::float();
    vx::assume((x > -lim) & (x < lim));
    x
}
fn near0(x: f32, tol: f32) -> bool { (x < tol) & (x > -tol) }
fn run(rate: usize, seg: usize, p: Vec<f32>, q: Vec<f32>) -> Vec<f32> {
    let mut par = Parameters::default();
    par.rate = rate;
    let a = mk(par);
    let dims = p.len();
    let s = (seg + rate - 1) % rate;
    // a far away transition fixes the extent of the planes
    let far = ndarray::Array1::from((0..dims).map(|i| if i == 0 { 100.0 } else { 3.0 }).collect::<Vec<f32>>());
    let far2 = ndarray::Array1::from((0..dims).map(|i| if i == 0 { 1.7 } else { -7.0 - i as f32 }).collect::<Vec<f32>>());
    sched::with(&a, |x| {
        x.data_store.add_transition(Transition::new(Point::new(3, far, (s + 1) % rate).into_ref(), Point::new(4, far2, (s + 2) % rate).into_ref()));
        x.data_store.add_transition(Transition::new(Point::new(5, ndarray::Array1::from(p), s).into_ref(), Point::new(6, ndarray::Array1::from(q), seg).into_ref()));
    });
    a.do_send(SegmentedMessage);
    until("::IntersectionCalculationDone");
    let r: Vec<Vec<f32>> = sched::with(&a, |x| match x.data_store.get_intersections_from_segment(seg) {
        Some(v) => v.iter().filter(|i| i.get_from_id() == 5).map(|i| i.get_coordinates().to_vec()).collect(),
        None => vec![],
    });
    vx::check(r.len() == 1, 4);
    r[0].clone()
}
// the stored values are the distances of the crossing point from the origin, one per pair of coordinates
// (coordinate i pairs with coordinate i + dims/2); any start point in a box, one direction per border
vx::entry! { vh_stored(rate, seg, dims, dir) {
    let a = 2.0 * std::f32::consts::PI * seg as f32 / rate as f32;
    let (cu, su) = (a.cos(), a.sin());
    // boxes that do not overlap keep the order of the coordinates (only relevant for the extent of the planes)
    let box_ = [5.0, -2.0, 9.0, -6.0, 12.0, -10.0, 15.0, -14.0];
    // more than 4 dimensions: listed start points
    let list = if dims > 4 { vx::choose(3) as f32 } else { 0.0 };
    let p: Vec<f32> = (0..dims).map(|i| box_[i] + if dims <= 4 { small(1.0) } else { 0.37 * list - 0.1 * i as f32 }).collect();
    let w = [0.3, -0.4, 0.5, -0.3, 0.2, 0.6];
    let v: Vec<f32> = (0..dims).map(|i| match i { 0 => -0.4 * su + 0.3 * dir as f32 * cu, 1 => 0.4 * cu + 0.3 * dir as f32 * su, _ => w[i - 2] }).collect();
    let q: Vec<f32> = (0..dims).map(|i| p[i] + v[i]).collect();
    let r = run(rate, seg, p.clone(), q);
    let h = dims / 2;
    vx::check(r.len() == h, 5);
    // parameter of the crossing
    let k = -(cu * p[1] - su * p[0]) / 0.4;
    let x: Vec<f32> = (0..dims).map(|i| p[i] + k * v[i]).collect();
    let t = vx::tol(0.2, 0.05);
    for i in 0..h {
        vx::check(r[i] > -0.001, 6);
        vx::check(near0(r[i] * r[i] - (x[i] * x[i] + x[i + h] * x[i + h]), t), 7);
    }
    if dims == 2 { vx::cover(3); } else { vx::cover(4); }
} }
