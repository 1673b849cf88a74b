pub(crate) use super::rotation::verif as vx_rotation;
