//@ include graph.rs
//@ include cluster.rs
//@ include redistribute.rs
vx::entry! { vh_edges(k, n, rows, steps) { redistribute(k, n, rows, steps, 0) } }
