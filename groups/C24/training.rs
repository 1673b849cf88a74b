pub(crate) use super::node_estimation::verif::vx_kde_actors;
pub(crate) use super::scoring::verif as vx_scoring;
