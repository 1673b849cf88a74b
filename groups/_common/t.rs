use super::*;
use actix::sched;
use actix::vx;
#[allow(dead_code)]
fn mk(p: Parameters) -> Addr<Training> {
    let a = Training::init(p).start();
    sched::run_all();
    a
}
/// lets everything run until `stop` is the next message of the node
#[allow(dead_code)]
fn until(stop: &'static str) {
    sched::hold_before(Some(stop));
    sched::run_all();
}
#[allow(dead_code)]
fn held(node: usize, stop: &str) -> bool {
    sched::held_once(node, stop)
}
