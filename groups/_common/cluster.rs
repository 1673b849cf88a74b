use actix_telepathy::net;
use crate::utils::ClusterNodes;
/// k cluster nodes that know each other; nothing has been sent yet
#[allow(dead_code)]
fn cluster(k: usize, p: &Parameters) -> Vec<Addr<Training>> {
    let mut out = vec![];
    for i in 0..k {
        sched::set_node(i);
        net::add_node(std::net::SocketAddr::from(([127, 0, 0, 1], 8000 + i as u16)));
    }
    for i in 0..k {
        sched::set_node(i);
        let mut p = p.clone();
        p.n_cluster_nodes = k;
        p.local_host = std::net::SocketAddr::from(([127, 0, 0, 1], 8000 + i as u16));
        if i > 0 { p.role = crate::parameters::Role::Sub { mainhost: std::net::SocketAddr::from(([127, 0, 0, 1], 8000)) }; }
        let a = Training::init(p).start();
        out.push(a);
    }
    sched::run_all();
    for i in 0..k {
        let mut m = std::collections::HashMap::new();
        for j in 0..k {
            if j != i { m.insert(j, net::member(j)); }
        }
        sched::with(&out[i], |t| t.cluster_nodes = ClusterNodes::from(m));
    }
    out
}
