use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_explain, vh_many, vh_large);
