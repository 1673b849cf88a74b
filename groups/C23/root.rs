use actix::vx;
use crate::cluster_listener::verif::*;
vx::entries!(vh_join, vh_at, vh_large);
