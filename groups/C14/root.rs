use actix::vx;
use crate::training::verif::vx_kde_actors::*;
vx::entries!(vh_labels, vh_nearest, vh_equal, vh_large);
