//@ include t.rs
use crate::data_store::point::Point;
use crate::data_store::transition::TransitionMixin;

// n points with arbitrary segments, no self-correction; rate arbitrary up to rmax
vx::entry! { vh_seg(n, rmax, c, d) {
    let rate = vx::range(1, rmax);
    let mut p = Parameters::default();
    p.rate = rate;
    let a = mk(p);
    let mut seg = vec![];
    for i in 0..n {
        let s = vx::range(0, rmax - 1);
        vx::assume(s < rate);
        seg.push(s);
        sched::with(&a, |t| t.data_store.add_point(Point::new(i, arr1(&[i as f32, 1.0]), s)));
    }
    judge(&a, &seg, rate);
} }
fn judge(a: &Addr<Training>, seg: &Vec<usize>, rate: usize) {
    let n = seg.len();
    a.do_send(RotationDoneMessage);
    until("::SegmentedMessage");
    vx::check(held(0, "::SegmentedMessage"), 1);
    let tr = sched::with(&a, |t| t.data_store.get_transitions());
    let mut k = 0;
    for i in 0..n - 1 {
        let present = k < tr.len() && tr[k].get_from_point().get_id() == i;
        let d = if seg[i + 1] >= seg[i] { seg[i + 1] - seg[i] } else { seg[i + 1] + rate - seg[i] };
        vx::check(present == ((d >= 1) & (d <= rate / 2)), 2);
        if present {
            vx::check(tr[k].get_to_point().get_id() == i + 1, 3);
            vx::check(tr[k].get_from_segment() == seg[i], 4);
            vx::check(tr[k].get_to_segment() == seg[i + 1], 4);
            vx::check(tr[k].get_from_point().clone_coordinates()[0] == i as f32, 4);
            vx::check(tr[k].get_to_point().clone_coordinates()[0] == (i + 1) as f32, 4);
            k += 1;
            vx::cover(1);
        }
    }
    vx::check(k == tr.len(), 5);
}
// a long fixed sequence: any mixture of steps
vx::entry! { vh_large(n, rate, c, d) {
    let mut p = Parameters::default();
    p.rate = rate;
    let a = mk(p);
    let mut seg = vec![];
    let mut s = c % rate;
    for i in 0..n {
        seg.push(s);
        sched::with(&a, |t| t.data_store.add_point(Point::new(i, arr1(&[i as f32, 1.0]), s)));
        s = (s + (i * i * 5 + i * 3 + i / 3 + c) % rate) % rate;
    }
    judge(&a, &seg, rate);
} }
// self-correction: points with arbitrary coordinates
vx::entry! { vh_corr(n, rate, c, d) {
    let mut p = Parameters::default();
    p.rate = rate;
    p.self_correction = true;
    let a = mk(p);
    vx::grid(rate);
    let mut pts = vec![];
    for _ in 0..n {
        let x = vx::float();
        let y = vx::float();
        vx::assume((x > -1.0) & (x < 1.0) & (y > -1.0) & (y < 1.0));
        vx::assume(vx::off_border(x, y, rate, 0.001));
        vx::assume(vx::off_border(-x, y, rate, 0.001));
        pts.push((x, y));
    }
    correct(&a, pts, rate);
} }
// long: points that go around with a given stride and some steps back
vx::entry! { vh_drift(n, rate, stride, back) {
    let mut p = Parameters::default();
    p.rate = rate;
    p.self_correction = true;
    let a = mk(p);
    let mut s = 0;
    let mut pts = vec![];
    for i in 0..n {
        // not in the middle of a sector: mirrored points do not lie on a border either
        let t = 2.0 * std::f64::consts::PI * (s as f64 + 0.3) / rate as f64;
        pts.push((t.cos() as f32, t.sin() as f32));
        s = if back > 0 && i % back == 0 { s + rate - stride } else { s + stride } % rate;
    }
    correct(&a, pts, rate);
} }
fn correct(a: &Addr<Training>, pts: Vec<(f32, f32)>, rate: usize) {
    let n = pts.len();
    let arr: Vec<_> = pts.iter().map(|q| arr1(&[q.0, q.1])).collect();
    sched::with(&a, |t| t.data_store.add_points_with_offset(arr, 0, rate));
    let before: Vec<usize> = sched::with(&a, |t| t.data_store.get_points().iter().map(|p| p.get_segment()).collect());
    a.do_send(RotationDoneMessage);
    until("::SegmentedMessage");
    vx::check(held(0, "::SegmentedMessage"), 1);
    // what has to happen
    let step = |i: usize, s: &Vec<usize>| (s[i + 1] + rate - s[i]) % rate;
    let ccw = (0..n - 1).filter(|i| { let d = step(*i, &before); d >= 1 && d <= rate / 2 }).count();
    let cw = (0..n - 1).filter(|i| step(*i, &before) > rate / 2).count();
    let mirror = cw > ccw;
    let after = sched::with(&a, |t| t.data_store.get_points());
    vx::check(after.len() == n, 6);
    let seg: Vec<usize> = after.iter().map(|p| p.get_segment()).collect();
    for i in 0..n {
        let c = after[i].clone_coordinates();
        vx::check(c[0] == if mirror { -pts[i].0 } else { pts[i].0 }, 6);
        vx::check(c[1] == pts[i].1, 6);
        if !mirror {
            vx::check(seg[i] == before[i], 6);
        }
    }
    let tr = sched::with(&a, |t| t.data_store.get_transitions());
    let mut k = 0;
    for i in 0..n - 1 {
        let d = step(i, &seg);
        if d >= 1 && d <= rate / 2 {
            vx::check(k < tr.len(), 7);
            vx::check(tr[k].get_from_point().get_id() == i && tr[k].get_to_point().get_id() == i + 1, 7);
            vx::check(tr[k].get_from_segment() == seg[i] && tr[k].get_to_segment() == seg[i + 1], 7);
            vx::check(tr[k].get_from_point().clone_coordinates()[0] == after[i].clone_coordinates()[0], 7);
            k += 1;
        }
    }
    vx::check(k == tr.len(), 7);
    if mirror { vx::cover(2); } else { vx::cover(3); }
}
