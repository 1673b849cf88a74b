pub(crate) use super::multi_kde::verif::vx_kde_actors;
