use actix::vx;
use crate::data_manager::verif::*;
vx::entries!(vh_stats, vh_order, vh_at, vh_large);
