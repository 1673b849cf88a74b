pub(crate) use super::transposition::verif as vx_transposition;
