use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_raw, vh_final);
