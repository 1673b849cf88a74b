use super::*;
use actix::vx;
vx::entries!(vh_own, vh_mono, vh_next);

fn params(k: usize, rate: usize) -> Parameters {
    let mut p = Parameters::default();
    p.rate = rate;
    p.n_cluster_nodes = k;
    p
}
// every segment has an owner among the nodes; every node owns a segment
vx::entry! { vh_own(kmax, rmax, c, d) {
    let k = vx::concrete(vx::range(1, kmax));
    let rate = vx::range(k, rmax);
    let p = params(k, rate);
    let s = vx::range(0, rmax - 1);
    vx::assume(s < rate);
    vx::check(p.segment_id_to_assignment(s) < k, 1);
    // node j owns the segment that is reported as its first one
    let j = vx::range(0, k - 1);
    let o = p.segment_id_to_assignment(s);
    let i = (j + k - o) % k;
    let f = p.first_segment_of_i_next_cluster_node(s, i);
    vx::check(f < rate, 2);
    vx::check(p.segment_id_to_assignment(f) == j, 3);
    vx::cover(1);
} }
// ownership is monotone and therefore contiguous
vx::entry! { vh_mono(kmax, rmax, c, d) {
    let k = vx::concrete(vx::range(1, kmax));
    let rate = vx::range(k, rmax);
    let p = params(k, rate);
    let s = vx::range(0, rmax - 1);
    vx::assume(s + 1 < rate);
    let a = p.segment_id_to_assignment(s);
    let b = p.segment_id_to_assignment(s + 1);
    vx::check(b == a || b == a + 1, 4);
    vx::check(p.segment_id_to_assignment(0) == 0, 5);
    vx::check(p.segment_id_to_assignment(rate - 1) == k - 1, 6);
    vx::cover(1);
} }
// the reported first segment is the lowest one of its owner
vx::entry! { vh_next(kmax, rmax, c, d) {
    let k = vx::concrete(vx::range(1, kmax));
    let rate = vx::range(k, rmax);
    let p = params(k, rate);
    let s = vx::range(0, rmax - 1);
    vx::assume(s < rate);
    let i = vx::range(0, 2 * k);
    let f = p.first_segment_of_i_next_cluster_node(s, i);
    vx::check(f < rate, 7);
    let owner = (p.segment_id_to_assignment(s) + i) % k;
    vx::check(p.segment_id_to_assignment(f) == owner, 8);
    if f > 0 {
        vx::check(p.segment_id_to_assignment(f - 1) != owner, 9);
        vx::cover(1);
    }
} }
