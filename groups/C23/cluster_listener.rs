use super::*;
use actix::sched;
use actix::vx;
use actix_telepathy::net;
use crate::interface::SyncInterface;

// (machine, members it starts with, members it had heard of)
static mut STARTS: Vec<(usize, ClusterNodes, usize)> = Vec::new();
static mut HEARD: [usize; 16] = [0; 16];
fn starts() -> &'static mut Vec<(usize, ClusterNodes, usize)> {
    unsafe { &mut *std::ptr::addr_of_mut!(STARTS) }
}
fn begin(_: &mut Training, m: StartTrainingMessage, _: &mut Context<Training>) {
    starts().push((sched::node(), m.nodes, unsafe { HEARD[sched::node()] }));
}
fn hear(l: &mut ClusterMemberListener, m: ClusterLog, c: &mut Context<ClusterMemberListener>) {
    unsafe { HEARD[sched::node()] += 1 };
    l.handle(m, c);
}
fn run(k: usize, mode: sched::Mode, rot: usize) {
    starts().clear();
    unsafe { HEARD = [0; 16] };
    sched::stub::<Training, StartTrainingMessage>(begin);
    sched::stub::<ClusterMemberListener, ClusterLog>(hear);
    // machine 0 is the main one; its address has any rank
    // pairs of machines share their port, and pairs their host
    let addr = |i: usize| {
        let x = (i + rot) % k;
        SocketAddr::from(([10, 0, 0, 1 + (x / 2) as u8], 8000 + (x % 2) as u16))
    };
    for i in 0..k { net::add_node(addr(i)); }
    let mut ls = vec![];
    for i in 0..k {
        sched::set_node(i);
        let mut p = Parameters::default();
        p.n_cluster_nodes = k;
        p.local_host = addr(i);
        p.role = if i == 0 { Role::Main { data_path: None } } else { Role::Sub { mainhost: addr(0) } };
        let t = Training::init(p.clone()).start();
        ls.push(ClusterMemberListener::new(p, t).start());
    }
    sched::run_all();
    for i in 0..k {
        for j in 0..k {
            if i == j { continue; }
            let l = ls[i].clone();
            sched::remote(k + i * k + j, i, Box::new(move || l.do_send(ClusterLog::NewMember(net::member(j)))));
        }
    }
    sched::set_mode(mode);
    sched::run_all();
    let mut idx = vec![];
    for i in 0..k {
        let mine: Vec<_> = starts().iter().filter(|s| s.0 == i).collect();
        vx::check(mine.len() == 1, 1);
        vx::check(mine[0].2 == k - 1, 2);
        vx::check(mine[0].1.len_incl_own() == k, 3);
        idx.push(mine[0].1.get_own_idx());
    }
    vx::check(idx[0] == 0, 4);
    for i in 0..k {
        let mine = starts().iter().find(|s| s.0 == i).unwrap();
        for j in 0..k {
            match mine.1.get(&idx[j]) {
                None => vx::check(i == j, 5),
                Some(a) => vx::check(i != j && a.node.socket_addr == addr(j), 5),
            }
        }
    }
    vx::cover(1);
    if k > 2 && idx[1] != 1 { vx::cover(2); }
}
vx::entry! { vh_join(k, d, c, e) { run(k, sched::Mode::Any, vx::choose(2) * d) } }
vx::entry! { vh_large(k, d, c, e) { run(k, sched::Mode::Fifo, d) } }
vx::entry! { vh_at(k, d, c, e) { run(k, sched::Mode::At(vx::choose(k)), vx::choose(2) * d) } }
