//@ include t.rs
use crate::data_store::node::IndependentNode;
use crate::data_store::node::NodeRef;

// n transitions, each crosses 1..=bmax borders, any rate in 2*bmax..=rmax, any clusters, any gaps between the point ids
vx::entry! { vh_chain(n, bmax, rmax, gaps) {
    // more than ten transitions: fixed values, four variants
    let big = n > 10;
    let mut x = if big { 17 + vx::choose(4) as u64 } else { 0 };
    let mut next = |m: usize| { x = (x * 1103515245 + 12345) % 2147483648; (x >> 8) as usize % m };
    let rate = if big { rmax } else { vx::range(2 * bmax, rmax) };
    let mut p = Parameters::default();
    p.rate = rate;
    let a = mk(p);
    let mut path: Vec<(usize, usize, usize)> = vec![];
    let mut id = 0;
    let mut any_wrap = false;
    for i in 0..n {
        id += if gaps == 1 { if big { next(4) } else { vx::choose(2) } } else { 0 };
        let m = 1 + if big { next(bmax) } else { vx::choose(bmax) };
        // number of borders from segment 0 on; m: starts exactly at the last segment
        let w = if big { next(m + 1) } else { vx::choose(m + 1) };
        let first = if w > 0 { rate - (m - w) } else {
            let s = if big { 1 + next(rate - m) } else { vx::range(1, rmax) };
            vx::assume(s + m <= rate);
            s
        };
        let mut nodes: Vec<(usize, usize)> = vec![];
        for k in 0..m {
            let seg = if w > 0 && k >= m - w { k - (m - w) } else { first + k };
            nodes.push((seg, if big { next(7) } else { vx::range(0, 3) }));
        }
        for (s, c) in nodes.iter() { path.push((*s, *c, id)); }
        if w > 0 && w < m { any_wrap = true; }
        // node estimation proceeds by segment
        let r = if w < m { m - w } else { 0 };
        nodes.rotate_left(r);
        sched::with(&a, |t| for (s, c) in nodes.iter() { t.data_store.add_independent_node(IndependentNode::new(*s, *c, id)); });
        id += 1;
        let _ = i;
    }
    sched::with(&a, |t| t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), id + gaps)));
    a.do_send(NodeEstimationDone);
    until("::EdgeEstimationDone");
    vx::check(held(0, "::EdgeEstimationDone"), 1);
    let e = sched::with(&a, |t| t.data_store.get_edges());
    vx::check(e.len() == path.len() - 1, 2);
    let same = |n: &NodeRef, p: &(usize, usize, usize)| (n.get_segment_id() == p.0) & (n.get_cluster() == p.1) & (n.get_from_id() == p.2);
    for i in 0..e.len() {
        let (f, t) = (e[i].get_from_node(), e[i].get_to_node());
        vx::check(same(&f, &path[i]), 3);
        vx::check(same(&t, &path[i + 1]), 4);
        vx::check(e[i].get_to_id() == path[i + 1].2, 5);
    }
    vx::cover(1);
    if any_wrap { vx::cover(2); }
} }
