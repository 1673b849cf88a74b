//@ include graph.rs
//@ include cluster.rs
//@ include redistribute.rs
vx::entry! { vh_move(k, n, rows, d) { redistribute(k, n, rows, 0, d) } }
vx::entry! { vh_order(k, n, rows, d) { redistribute(k, n, rows, 1, d) } }
vx::entry! { vh_at(k, n, rows, d) { redistribute(k, n, rows, 2, d) } }
vx::entry! { vh_lag(k, n, rows, steps) { redistribute(k, n, rows, steps, 0) } }
