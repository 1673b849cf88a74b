use actix::vx;
use crate::training::verif::*;
vx::entries!(vh_graph, vh_walk, vh_correct, vh_part, vh_order, vh_at, vh_long, vh_late);
