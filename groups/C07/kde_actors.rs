use super::*;
use actix::sched;
fn reply(a: &mut MultiKDEActor, m: MultiKDEMessage, _: &mut Context<MultiKDEActor>) {
    let labels = m.data.outer_iter().map(|r| (r[0] * r[0] < 0.4) as usize).collect();
    a.receiver.do_send(ClusteringResponse { cluster_centers: m.data, labels });
}
/// two clusters: near the origin and far from it
pub(crate) fn two_clusters() {
    sched::stub::<MultiKDEActor, MultiKDEMessage>(reply);
}
