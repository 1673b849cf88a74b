//@ include dm.rs

/// a local run over the given data, up to the embedding
fn embed(p: &Parameters, d: &Vec<Vec<f32>>) -> &'static DataLoadedAndProcessed {
    let ms = managers(1, p);
    let data = Array2::from_shape_vec((d.len(), d[0].len()), d.iter().flatten().copied().collect()).unwrap();
    ms[0].do_send(LocalReadDataMessage { data });
    sched::run_all();
    vx::check(result(0).is_some(), 1);
    result(0).unwrap()
}
vx::entry! { vh_embed(rows, pl, cols, spread) {
    let latent = 1 + vx::choose(pl - 1);
    let extra = vx::choose(rows - pl + 1);
    let rows = pl + extra;
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = latent;
    p.n_threads = 2;
    let mut d: Vec<Vec<f32>> = vec![];
    for _ in 0..rows {
        d.push((0..cols).map(|_| {
            let x = vx::float();
            vx::assume((x >= -100.0) & (x <= 100.0));
            x
        }).collect());
    }
    // the range of the values plays no role here
    for i in 1..rows { for c in 0..cols { match spread { 0 => vx::assume(d[i][c] > d[i - 1][c]), 1 => vx::assume(d[i][c] < d[i - 1][c]), 2 => vx::assume(d[i][c] >= d[i - 1][c]), _ => vx::assume(d[i][c] == d[i - 1][c]) } } }
    judge(&p, &d);
    vx::cover(1);
    if latent > 1 && latent < pl - 1 && extra > 1 { vx::cover(2); }
} }
// fixed longer series
vx::entry! { vh_large(rows, pl, cols, latent) {
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = latent;
    p.n_threads = 1 + cols / 2;
    let d: Vec<Vec<f32>> = (0..rows).map(|i| (0..cols).map(|c| ((i * i * 7 + 13 * i * (c + 1) + 5 * c) % 97) as f32 * 0.125 - 5.0).collect()).collect();
    judge(&p, &d);
} }
fn judge(p: &Parameters, d: &Vec<Vec<f32>>) {
    let (rows, cols, pl, latent) = (d.len(), d[0].len(), p.pattern_length, p.latent);
    let ps = &embed(p, d).phase_space;
    vx::check(ps.shape() == [rows - pl + 1, pl - latent, cols], 2);
    for i in 0..rows - pl + 1 {
        for j in 0..pl - latent {
            for c in 0..cols {
                let mut s = 0.0;
                for m in 0..latent { s += d[i + j + m][c]; }
                let t = vx::tol(0.001, 0.0005);
                let e = ps[[i, j, c]] - s;
                vx::check((e < t) & (e > -t), 3);
            }
        }
    }
}
