//@ include dm.rs

fn run(k: usize, max: usize, cols: usize, mode: usize) {
    let pl = if max > 1 { 2 + vx::choose(2) } else { 2 };
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = 1;
    p.n_threads = 1;
    // share of every machine; the overlap is part of the next machine's share
    let mut share = vec![];
    for i in 0..k { share.push((pl - 1).max(1) + if mode == 3 { (i * 7 + 3) % max } else { vx::choose(max) }); }
    let last = share[k - 1];
    share[k - 1] = last.max(pl);
    let rows: usize = share.iter().sum();
    let mut d: Vec<Vec<f32>> = vec![];
    for i in 0..rows {
        let mut r = vec![];
        for c in 0..cols {
            r.push(if mode == 3 { ((i * i * 5 + c * 3) % 23) as f32 * 0.5 + (i / 20) as f32 - 7.0 } else if mode > 0 { ((i * 5 + c * 3) % 7) as f32 } else {
                let x = vx::float();
                vx::assume((x >= -10.0) & (x <= 10.0));
                x
            });
        }
        d.push(r);
    }
    let ms = managers(k, &p);
    for i in 0..k { ms[i].do_send(LoadDataMessage { nodes: members(i, k) }); }
    sched::run_all();
    match mode {
        0 | 3 => {}
        1 => sched::set_mode(sched::Mode::Any),
        _ => sched::set_mode(sched::Mode::At(vx::choose(k))),
    }
    let mut start = 0;
    for i in 0..k {
        let end = start + share[i] + if i < k - 1 { pl - 1 } else { 0 };
        let flat: Vec<f32> = d[start..end].iter().flatten().copied().collect();
        let data = Array2::from_shape_vec((end - start, cols), flat).unwrap();
        let a = ms[i].clone();
        // the main machine reads its own part before it can hear of the others
        if i == 0 { a.do_send(LocalReadDataMessage { data }) } else { sched::remote(k, i, Box::new(move || a.do_send(LocalReadDataMessage { data }))) }
        start += share[i];
    }
    sched::run_all();
    for i in 0..k {
        let r = result(i);
        vx::check(r.is_some(), 1);
        let s = &r.unwrap().dataset_stats;
        vx::check(s.n == Some(rows), 2);
        let (min, max, std) = (s.min_col.as_ref().unwrap(), s.max_col.as_ref().unwrap(), s.std_col.as_ref().unwrap());
        vx::check((min.len() == cols) & (max.len() == cols) & (std.len() == cols), 3);
        for c in 0..cols {
            let mut lo = d[0][c];
            let mut hi = d[0][c];
            let mut sum = 0.0;
            for r in d.iter() { lo = lo.min(r[c]); hi = hi.max(r[c]); sum += r[c]; }
            vx::check(min[c] == lo, 4);
            vx::check(max[c] == hi, 5);
            let mean = sum / rows as f32;
            let mut m2 = 0.0;
            for r in d.iter() { m2 += (r[c] - mean) * (r[c] - mean); }
            let var = m2 / (rows - 1) as f32;
            let t = vx::tol(0.02, 0.005);
            let e = std[c] * std[c] - var;
            vx::check((e < t) & (e > -t), 6);
            vx::check(std[c] >= 0.0, 6);
        }
    }
    vx::cover(1);
    if k > 1 && share[0] != share[1] { vx::cover(2); }
}
vx::entry! { vh_stats(k, max, cols, d) { run(k, max, cols, 0) } }
vx::entry! { vh_order(k, max, cols, d) { run(k, max, cols, 1) } }
vx::entry! { vh_at(k, max, cols, d) { run(k, max, cols, 2) } }
// more rows, columns and machines
vx::entry! { vh_large(k, max, cols, d) { run(k, max, cols, 3) } }
