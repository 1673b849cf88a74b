use crate::training::messages::DetectionResponse;
use crate::training::EdgeEstimationDone;
#[allow(unused_imports)]
use crate::training::TranspositionDone;
use actix::{Actor, Recipient};

/// raw scores by the published formula; numerator and denominator
#[allow(dead_code)]
fn raw(es: &[E], points: usize, ql: usize) -> Vec<(usize, usize)> {
    let cnt = |p: usize| es.iter().filter(|e| e.id <= p).count();
    let mut out: Vec<(usize, usize)> = vec![];
    for i in 0..points - ql {
        let w = &es[cnt(i)..(cnt(i + ql - 1) + 1).min(es.len())];
        if w.len() == 0 {
            out.push(if i > 0 { out[i - 1] } else { (0, 1) });
        } else {
            let s: usize = w.iter().map(|e| weight(es, e) * (degree(es, e.f) - 1)).sum();
            out.push((vx::concrete(s), w.len()));
        }
    }
    out
}
#[allow(dead_code)]
static mut GOT: Vec<(usize, Vec<f32>)> = Vec::new();
#[allow(dead_code)]
fn sink_of(node: usize) -> Recipient<DetectionResponse> {
    Recipient::vx_from_fn(node, |n, m| unsafe { (*std::ptr::addr_of_mut!(GOT)).push((n, m.anomaly_score.to_vec())) })
}
#[allow(dead_code)]
fn sink() -> Recipient<DetectionResponse> {
    sink_of(0)
}
#[allow(dead_code)]
fn got_of(node: usize) -> Vec<Vec<f32>> {
    unsafe { (*std::ptr::addr_of!(GOT)).iter().filter(|x| x.0 == node).map(|x| x.1.clone()).collect() }
}
#[allow(dead_code)]
fn got() -> Vec<Vec<f32>> {
    got_of(0)
}
#[allow(dead_code)]
fn near(a: f32, b: f32) -> bool {
    let d = a - b;
    (d < 1e-4) & (d > -1e-4)
}
