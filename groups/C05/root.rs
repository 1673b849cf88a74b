use actix::vx;
use crate::training::verif::*;
use crate::utils::verif::*;
vx::entries!(vh_plane2, vh_planed, vh_dir, vh_stored);
