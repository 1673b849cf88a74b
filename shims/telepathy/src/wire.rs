//! Moves a message across the (modelled) wire.  With `S2V_WIRE` compiled in
//! this goes through serde; here it is a plain move.
pub fn transfer<T>(m: T) -> T {
    m
}
