use actix::vx;
use crate::data_store::verif::*;
vx::entries!(vh_sector, vh_many, vh_fixed);
