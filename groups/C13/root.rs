use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_order, vh_at, vh_large, vh_join);
