pub(crate) use super::scoring::verif as vx_scoring;
