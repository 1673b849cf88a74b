use actix::vx;
use crate::data_manager::verif::*;
vx::entries!(vh_ref, vh_two, vh_large);
