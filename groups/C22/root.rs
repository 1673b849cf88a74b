use actix::vx;
use crate::utils::verif::*;
use crate::training::verif::*;
use crate::training::verif::vx_scoring::{vh_any, vh_slow};
use crate::training::verif::vx_transposition::vh_edges;
vx::entries!(vh_direct, vh_ring, vh_helper, vh_at, vh_part, vh_correct, vh_any, vh_slow, vh_late, vh_edges);
