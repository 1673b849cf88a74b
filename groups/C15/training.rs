pub(crate) use super::node_estimation::verif::vx_kde_actors;
