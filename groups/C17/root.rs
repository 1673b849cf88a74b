use actix::vx;
use crate::data_manager::verif::*;
vx::entries!(vh_read, vh_at, vh_large);
