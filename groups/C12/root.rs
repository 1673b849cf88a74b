use actix::vx;
use crate::training::verif::vx_scoring::*;
vx::entries!(vh_scale, vh_file);
