use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_threads, vh_order, vh_long, vh_large);
