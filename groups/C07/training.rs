pub(crate) use super::node_estimation::verif::vx_kde_actors;
//@ include t.rs
//@ include cluster.rs
//@ include clustergraph.rs
