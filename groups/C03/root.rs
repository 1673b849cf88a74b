use actix::vx;
use crate::training::verif::*;
vx::entries!(vh_seg, vh_corr, vh_large, vh_drift);
