pub(crate) use super::transposition::verif as vx_transposition;
pub(crate) use super::scoring::verif as vx_scoring;
pub(crate) use super::node_estimation::verif::vx_kde_actors;
//@ include t.rs
//@ include cluster.rs
//@ include clustergraph.rs
