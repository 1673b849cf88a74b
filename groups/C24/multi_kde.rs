pub(crate) use super::actors::verif as vx_kde_actors;
