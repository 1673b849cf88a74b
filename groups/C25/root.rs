use actix::vx;
use crate::training::verif::vx_rotation::*;
vx::entries!(vh_alg, vh_order, vh_at, vh_split, vh_vectors, vh_large);
