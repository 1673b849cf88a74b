//@ include dm.rs

fn reference(p: &Parameters, d: &Vec<Vec<f32>>) -> &'static DataLoadedAndProcessed {
    let ms = managers(1, p);
    let data = Array2::from_shape_vec((d.len(), d[0].len()), d.iter().flatten().copied().collect()).unwrap();
    ms[0].do_send(LocalReadDataMessage { data });
    sched::run_all();
    vx::check(result(0).is_some(), 1);
    result(0).unwrap()
}
// a local run; the extremes are at arbitrary rows
vx::entry! { vh_ref(rows, pl, cols, d) {
    let latent = 1 + vx::choose(pl - 1);
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = latent;
    p.n_threads = 1;
    let mut d: Vec<Vec<f32>> = vec![];
    for _ in 0..rows {
        d.push((0..cols).map(|_| {
            let x = vx::float();
            vx::assume((x >= -100.0) & (x <= 100.0));
            x
        }).collect());
    }
    check(&reference(&p, &d).data_ref, &d, pl, latent);
    vx::cover(1);
} }
fn check(r: &ndarray::ArcArray<f32, ndarray::Ix3>, d: &Vec<Vec<f32>>, pl: usize, latent: usize) {
    let cols = d[0].len();
    vx::check(r.shape() == [100, pl - latent, cols], 2);
    for c in 0..cols {
        let mut lo = d[0][c];
        let mut hi = d[0][c];
        for x in d.iter() { lo = lo.min(x[c]); hi = hi.max(x[c]); }
        let t = vx::tol(0.01, 0.004);
        for i in 0..100 {
            for j in 0..pl - latent {
                let want = (lo + (hi - lo) * i as f32 / 99.0) * latent as f32;
                let e = r[[i, j, c]] - want;
                vx::check((e < t) & (e > -t), 3);
            }
        }
        if hi > lo + 1.0 { vx::cover(2); }
    }
}
// fixed longer series
vx::entry! { vh_large(rows, pl, cols, latent) {
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = latent;
    p.n_threads = 2;
    let d: Vec<Vec<f32>> = (0..rows).map(|i| (0..cols).map(|c| ((i * i * 7 + 13 * i * (c + 1) + 5 * c) % 97) as f32 * 0.01 * (c + 1) as f32 - 0.5 * c as f32).collect()).collect();
    check(&reference(&p, &d).data_ref, &d, pl, latent);
} }
// two machines: the range is that of the whole data set
vx::entry! { vh_two(pl, cols, c, d) {
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = 1;
    p.n_threads = 1;
    let rows = 2 * pl;
    let mut d: Vec<Vec<f32>> = vec![];
    for i in 0..rows {
        d.push((0..cols).map(|_| {
            let x = vx::float();
            vx::assume((x >= -100.0) & (x <= 100.0));
            // the extremes are among these rows
            if i != 0 && i != pl - 1 && i != rows - 1 { vx::assume(x == 0.0); }
            x
        }).collect());
    }
    let ms = managers(2, &p);
    for i in 0..2 { ms[i].do_send(LoadDataMessage { nodes: members(i, 2) }); }
    sched::run_all();
    for i in 0..2 {
        let (s, e) = if i == 0 { (0, 2 * pl - 1) } else { (pl, rows) };
        let data = Array2::from_shape_vec((e - s, cols), d[s..e].iter().flatten().copied().collect()).unwrap();
        ms[i].do_send(LocalReadDataMessage { data });
    }
    sched::run_all();
    for i in 0..2 {
        vx::check(result(i).is_some(), 1);
        check(&result(i).unwrap().data_ref, &d, pl, 1);
    }
    vx::cover(3);
} }
