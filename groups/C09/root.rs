use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_count, vh_exchange, vh_order, vh_at);
