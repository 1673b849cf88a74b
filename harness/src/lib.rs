//! The entry points live in the hook modules of the s2gpp crate (see /verif/groups).
pub fn dispatch(name: &str, a: &[u64]) -> bool {
    let g = |i: usize| a.get(i).copied().unwrap_or(0) as usize;
    for (n, f) in s2gpp::verif::entries() {
        if n == name {
            f(g(0), g(1), g(2), g(3));
            return true;
        }
    }
    false
}
