use actix::vx;
use crate::data_manager::verif::*;
vx::entries!(vh_embed, vh_large);
