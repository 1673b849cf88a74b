//@ include graph.rs
//@ include cluster.rs
//@ include score.rs
//@ include clusterscore.rs
