use actix::vx;
use crate::training::verif::*;
vx::entries!(vh_same, vh_order, vh_rows, vh_still);
