use actix::vx;
use crate::training::verif::vx_rotation::*;
vx::entries!(vh_dir, vh_points, vh_large, vh_flow);
