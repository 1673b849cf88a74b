use super::*;
use crate::utils::direct_protocol::DirectProtocol;
use crate::utils::rotation_protocol::RotationProtocol;
use actix::prelude::*;
use actix::vx;
use actix_telepathy::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(RemoteMessage, Serialize, Deserialize, Clone, Default)]
pub struct Item {
    v: usize,
}
static mut BOX: Vec<usize> = Vec::new();
fn mailbox() -> &'static mut Vec<usize> {
    unsafe { &mut *std::ptr::addr_of_mut!(BOX) }
}
fn post(_: usize, m: Item) {
    mailbox().push(m.v)
}
/// a node takes part in an exchange of n messages in each direction; the start of its own part, its n sends,
/// the arrivals and the handling of its mailbox interleave arbitrarily
fn history(max: usize, ring: bool) {
    mailbox().clear();
    let n = vx::range(1, max);
    let mut direct: DirectProtocol<Item> = DirectProtocol::default();
    let mut rotation: RotationProtocol<Item> = RotationProtocol::default();
    let mut done: Vec<usize> = vec![];
    let (mut started, mut sent, mut arrived) = (false, 0, 0);
    loop {
        let can = [!started, started & (sent < n), arrived < n, !mailbox().is_empty()];
        if !(can[0] | can[1] | can[2] | can[3]) { break; }
        let e = vx::choose(4);
        if !can[e] { vx::assume(false); }
        let mut todo = vec![];
        match e {
            0 => {
                started = true;
                if !done.is_empty() { vx::check(false, 1); }
                if ring {
                    rotation.start(n);
                    todo = rotation.take_buffer().into_iter().map(|m| m.v).collect();
                } else {
                    direct.start(n);
                    direct.resolve_buffer(Recipient::vx_from_fn(0, post));
                }
            }
            1 => {
                sent += 1;
                if ring { rotation.sent() } else { direct.sent() }
            }
            2 => {
                mailbox().push(arrived);
                arrived += 1;
            }
            _ => todo.push(mailbox().remove(0)),
        }
        for v in todo {
            let take = if ring { rotation.received(&Item { v }) } else { direct.received(&Item { v }) };
            // early messages are kept, later ones are taken
            vx::check(take == started, 1);
            if take { done.push(v); }
            if !take { vx::cover(2); }
        }
        if started {
            let running = if ring { rotation.is_running() } else { direct.is_running() };
            vx::check(running == ((done.len() < n) | (sent < n)), 2);
        }
    }
    vx::check(done.len() == n, 3);
    for i in 0..done.len() { vx::check(done.iter().filter(|x| **x == i).count() == 1, 3); }
    // a ring relies on the order of arrival
    if ring { for i in 0..done.len() { vx::check(done[i] == i, 4); } }
    vx::cover(1);
}
vx::entry! { vh_direct(n, b, c, d) { history(n, false) } }
vx::entry! { vh_ring(n, b, c, d) { history(n, true) } }
// workers: any number of parts, any interleaving of handing out and answers
vx::entry! { vh_helper(steps, b, c, d) {
    let n = vx::bits(8) as usize;
    let mut h = HelperProtocol { n_total: n, n_sent: 0, n_received: 0 };
    let (mut out, mut back) = (0, 0);
    for _ in 0..steps {
        vx::check(h.is_running() == (back < n), 5);
        if vx::boolean() {
            vx::assume(out < n);
            out += 1;
            h.sent();
        } else {
            vx::assume(back < out);
            back += 1;
            h.received();
        }
    }
    vx::check(h.is_running() == (back < n), 5);
    vx::check(h.n_received == back, 5);
    if back == n && n > 1 { vx::cover(3); }
} }
