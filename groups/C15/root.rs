use actix::vx;
use crate::training::verif::vx_kde_actors::*;
vx::entries!(vh_rows, vh_large, vh_order, vh_whole);
