use super::*;
use actix::sched;
use actix::vx;
use crate::data_store::edge::Edge;
use crate::data_store::node::IndependentNode;
#[allow(unused_imports)]
use crate::parameters::Parameters;
#[allow(unused_imports)]
use crate::SyncInterface;

#[derive(Clone, Copy)]
struct E {
    f: (usize, usize),
    t: (usize, usize),
    fid: usize,
    id: usize,
}
#[allow(dead_code)]
impl E {
    fn edge(&self) -> Edge {
        Edge::new(IndependentNode::new(self.f.0, self.f.1, self.fid).into_ref(), IndependentNode::new(self.t.0, self.t.1, self.id).into_ref())
    }
    fn same(&self, o: &E) -> bool {
        same(self.f, o.f) & same(self.t, o.t)
    }
}
#[allow(dead_code)]
fn same(a: (usize, usize), b: (usize, usize)) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}
#[allow(dead_code)]
fn weight(es: &[E], e: &E) -> usize {
    es.iter().map(|x| x.same(e) as usize).sum()
}
/// number of distinct edges that end or start at the node
#[allow(dead_code)]
fn degree(es: &[E], n: (usize, usize)) -> usize {
    let mut d = 0;
    for i in 0..es.len() {
        let mut first = true;
        for j in 0..i { first = first & !es[j].same(&es[i]); }
        d += (first as usize) * (same(es[i].f, n) as usize + same(es[i].t, n) as usize);
    }
    d
}
/// arbitrary edges; `chain`: every edge starts where the one before ended
#[allow(dead_code)]
fn any_edges(n: usize, segs: usize, clusters: usize, max_id: usize, chain: bool) -> Vec<E> {
    let mut out: Vec<E> = vec![];
    let mut id = 0;
    for i in 0..n {
        let f = if chain && i > 0 { out[i - 1].t } else { (vx::range(0, segs - 1), vx::range(0, clusters - 1)) };
        let t = (vx::range(0, segs - 1), vx::range(0, clusters - 1));
        let to = if max_id > 0 { vx::concrete(vx::range(id, max_id)) } else { 0 };
        out.push(E { f, t, fid: id, id: to });
        id = to;
    }
    out
}
/// a fixed larger graph, one per variant; many edges occur several times
#[allow(dead_code)]
fn fixed_edges(n: usize, segs: usize, clusters: usize, max_id: usize, variant: usize, chain: bool) -> Vec<E> {
    let mut x = 12345 + 7919 * variant as u64;
    let mut next = |m: usize| { x = (x * 1103515245 + 12345) % 2147483648; (x >> 8) as usize % m };
    let mut out: Vec<E> = vec![];
    let mut id = 0;
    for i in 0..n {
        let back = 1 + next(4);
        let again = i > back && next(2) == 0;
        let f = if chain && i > 0 { out[i - 1].t } else if again { out[i - back].f } else { (next(segs), next(clusters)) };
        let t = if chain && again {
            // the most recent way out of the node
            out.iter().rev().find(|e| e.f == f).map_or((next(segs), next(clusters)), |e| e.t)
        } else if again { out[i - back].t } else { (next(segs), next(clusters)) };
        let to = ((i + next(2)) * max_id / n).max(id).min(max_id);
        out.push(E { f, t, fid: id, id: to });
        id = to;
    }
    out
}
