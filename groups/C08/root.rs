use actix::vx;
use crate::training::verif::vx_transposition::*;
vx::entries!(vh_move, vh_order, vh_at, vh_lag);
