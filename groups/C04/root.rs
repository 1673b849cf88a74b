use actix::vx;
use crate::training::verif::*;
vx::entries!(vh_borders, vh_one, vh_many);
