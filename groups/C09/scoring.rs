//@ include graph.rs
//@ include cluster.rs
use crate::data_store::materialize::Materialize;
use crate::training::{EdgeEstimationDone, TranspositionDone};
use crate::data_manager::DatasetStats;
use ndarray::arr1;
use actix::Actor;

fn check_node(t: &Training, all: &[E], tag: u32) {
    for e in all.iter() {
        let w = t.scoring.edge_weight.get(&e.edge().materialize()).copied().unwrap_or(0);
        vx::check(w == weight(all, e), tag);
        for (n, x) in [(e.f, 0), (e.t, 1)] {
            let d = t.scoring.node_degrees.get(&IndependentNode::new(n.0, n.1, 77).into_ref()).copied().unwrap_or(0);
            vx::check(d == degree(all, n), tag + 1);
            let _ = x;
        }
    }
}

// one machine: n arbitrary edges over segs*clusters nodes
vx::entry! { vh_count(n, segs, clusters, chain) {
    let mut p = Parameters::default();
    p.query_length = 2;
    p.n_threads = 1;
    let a = Training::init(p).start();
    sched::run_all();
    let es = if n > 20 { fixed_edges(n, segs, clusters, 40, vx::choose(4), chain == 1) } else { any_edges(n, segs, clusters, 3, chain == 1) };
    sched::with(&a, |t| {
        t.data_store.add_edges(es.iter().map(|e| e.edge()).collect());
        t.num_rotated = Some(if es.len() > 20 { 43 } else { 6 });
    });
    a.do_send(EdgeEstimationDone);
    sched::hold_before(Some("::ScoringHelperResponse"));
    sched::run_all();
    sched::with(&a, |t| check_node(t, &es, 1));
    for i in 0..es.len() { for j in 0..i { if es[i].same(&es[j]) { vx::cover(1); } } }
    if same(es[0].f, es[0].t) { vx::cover(2); }
} }

// k machines with n edges each; every machine ends with the counts of the whole cluster, in every message order
fn exchange(k: usize, n: usize, segs: usize, any: usize) {
    let mut p = Parameters::default();
    p.query_length = 2;
    p.n_threads = 1;
    let ts = cluster(k, &p);
    let mut parts = vec![];
    let mut all = vec![];
    for i in 0..k {
        let es = if any == 0 && n > 10 { fixed_edges(n, segs, 6, 0, vx::choose(2) + i / 2, false) } else if any == 2 { (0..n).map(|j| E { f: (j % 2, 0), t: (j % 3, i % 2), fid: 0, id: 0 }).collect() } else { any_edges(n, segs, 1, 0, false) };
        // every machine owns one point range: ids 2*i and 2*i+1
        let es: Vec<E> = es.into_iter().map(|e| E { id: 2 * i, fid: 2 * i, ..e }).collect();
        sched::with(&ts[i], |t| {
            t.data_store.add_edges(es.iter().map(|e| e.edge()).collect());
            t.num_rotated = Some(4);
            t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), 2 * k));
        });
        all.extend(es.iter().copied());
        parts.push(es);
    }
    match any {
        0 => {}
        1 => sched::set_mode(sched::Mode::Any),
        _ => sched::set_mode(sched::Mode::At(vx::choose(k))),
    }
    for (i, t) in ts.iter().enumerate() {
        if any == 2 {
            // after the redistribution, which ends at any time
            sched::with(t, |t| t.scoring.node_degrees = t.calculate_node_degrees());
            let t = t.clone();
            sched::remote(k, i, Box::new(move || t.do_send(TranspositionDone)));
        } else {
            t.do_send(EdgeEstimationDone);
        }
    }
    sched::hold_before(Some("::ScoreInitDone"));
    sched::run_all();
    for i in 0..k {
        vx::check(sched::held_once(i, "::ScoreInitDone"), 5);
        sched::with(&ts[i], |t| {
            for e in all.iter() {
                let w = t.scoring.edge_weight.get(&e.edge().materialize()).copied().unwrap_or(0);
                vx::check(w == weight(&all, e), 3);
                for n in [e.f, e.t] {
                    let d = t.scoring.node_degrees.get(&IndependentNode::new(n.0, n.1, 77).into_ref()).copied().unwrap_or(0);
                    let want: usize = parts.iter().map(|p| degree(p, n)).sum();
                    vx::check(d == want, 4);
                }
            }
        });
    }
    vx::cover(3);
    if all[0].same(&all[all.len() - 1]) { vx::cover(4); }
}
vx::entry! { vh_exchange(k, n, segs, d) { exchange(k, n, segs, 0) } }
vx::entry! { vh_order(k, n, segs, d) { exchange(k, n, segs, 1) } }
vx::entry! { vh_at(k, n, segs, d) { exchange(k, n, segs, 2) } }
