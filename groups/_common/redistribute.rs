use crate::training::EdgeEstimationDone;
use crate::data_manager::DatasetStats;
use actix::Actor;
use ndarray::arr1;

/// k machines with n edges each, attributed to arbitrary points of a data set with `rows` rows
/// `alike`: the graph nodes repeat
fn redistribute(k: usize, n: usize, rows: usize, mode: usize, alike: usize) {
    let big = n > 10;
    let mut x = if big { 17 + vx::choose(4) as u64 } else { 0 };
    let mut p = Parameters::default();
    p.query_length = 2;
    let ts = cluster(k, &p);
    let mut all: Vec<E> = vec![];
    for i in 0..k {
        let mut own = vec![];
        for j in 0..n {
            let id = if big { x = (x * 1103515245 + 12345) % 2147483648; (x >> 8) as usize % rows } else { vx::range(0, rows - 1) };
            // `fid` identifies the edge
            let m = i * n + j;
            let v = if alike > 0 { m % (1 + alike) } else { m % 40 };
            let e = E { f: (v, v + 1), t: (v + 2, 3 * v), fid: 100 + i * n + j, id };
            own.push(e);
        }
        sched::with(&ts[i], |t| {
            t.data_store.add_edges(own.iter().map(|e| e.edge()).collect());
            t.num_rotated = Some(rows);
            t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), rows));
        });
        all.extend(own);
    }
    match mode {
        0 => {}
        1 => sched::set_mode(sched::Mode::Any),
        2 => sched::set_mode(sched::Mode::At(vx::choose(k))),
        n => sched::set_mode(sched::Mode::Lag(vx::choose(k), vx::choose(n))),
    }
    for (i, t) in ts.iter().enumerate() {
        let t = t.clone();
        sched::remote(k, i, Box::new(move || t.do_send(EdgeEstimationDone)));
    }
    sched::hold_before(Some("::TranspositionDone"));
    sched::run_all();
    let len = rows / k;
    let mut count = 0;
    for i in 0..k {
        vx::check(sched::held_once(i, "::TranspositionDone"), 1);
        let es = sched::with(&ts[i], |t| t.data_store.get_edges());
        let mut last = 0;
        for e in es.iter() {
            let id = e.get_to_id();
            vx::check(id >= last, 2);
            last = id;
            let owner = (id / len).min(k - 1);
            vx::check(owner == i, 3);
            // exactly the edge that was put in
            let (f, t) = (e.get_from_node(), e.get_to_node());
            let o = &all[f.get_from_id() - 100];
            vx::check((f.get_segment_id() == o.f.0) & (f.get_cluster() == o.f.1) & (t.get_segment_id() == o.t.0) & (t.get_cluster() == o.t.1) & (id == o.id), 4);
        }
        for m in 0..all.len() {
            vx::check(es.iter().filter(|e| e.get_from_node().get_from_id() == 100 + m).count() == ((all[m].id / len).min(k - 1) == i) as usize, 5);
        }
        count += es.len();
    }
    vx::check(count == all.len(), 5);
    vx::cover(1);
    if rows % k != 0 && all[0].id >= len * k { vx::cover(2); }
}
