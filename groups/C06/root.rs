use actix::vx;
use crate::training::verif::*;
vx::entries!(vh_chain);
