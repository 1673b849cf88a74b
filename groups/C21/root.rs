use actix::vx;
use crate::data_manager::verif::*;
vx::entries!(vh_cols, vh_order, vh_large);
