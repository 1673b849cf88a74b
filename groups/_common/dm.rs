use super::*;
use actix::sched;
use actix::vx;
use actix_telepathy::net;
use std::collections::HashMap;
static mut OUT: Vec<(usize, DataLoadedAndProcessed)> = Vec::new();
#[allow(dead_code)]
fn out() -> &'static mut Vec<(usize, DataLoadedAndProcessed)> {
    unsafe { &mut *std::ptr::addr_of_mut!(OUT) }
}
fn deliver(id: usize, m: DataLoadedAndProcessed) {
    out().push((id, m))
}
/// what machine i got, if exactly once
#[allow(dead_code)]
fn result(i: usize) -> Option<&'static DataLoadedAndProcessed> {
    let v: Vec<_> = out().iter().filter(|x| x.0 == i).collect();
    if v.len() == 1 { Some(&v[0].1) } else { None }
}
/// k data managers that do not know each other yet
#[allow(dead_code)]
fn managers(k: usize, p: &Parameters) -> Vec<Addr<DataManager>> {
    out().clear();
    for i in 0..k {
        sched::set_node(i);
        net::add_node(std::net::SocketAddr::from(([127, 0, 0, 1], 8000 + i as u16)));
    }
    let mut v = vec![];
    for i in 0..k {
        sched::set_node(i);
        let mut p = p.clone();
        p.n_cluster_nodes = k;
        p.local_host = std::net::SocketAddr::from(([127, 0, 0, 1], 8000 + i as u16));
        if i > 0 { p.role = Role::Sub { mainhost: std::net::SocketAddr::from(([127, 0, 0, 1], 8000)) }; }
        v.push(DataManager::new(ClusterNodes::new(), p, Recipient::vx_from_fn(i, deliver)).start());
    }
    sched::run_all();
    v
}
#[allow(dead_code)]
fn members(i: usize, k: usize) -> ClusterNodes {
    let mut m = HashMap::new();
    for j in 0..k {
        if j != i { m.insert(j, net::member(j)); }
    }
    ClusterNodes::from(m)
}
