use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_same, vh_any, vh_large, vh_slow);
