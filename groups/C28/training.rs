//@ include t.rs
//@ include cluster.rs
use ndarray::Array2;
use std::io::Write;
use crate::training::messages::DetectionResponse;

static mut GOT: Vec<(usize, Vec<f32>)> = Vec::new();
fn take(i: usize, m: DetectionResponse) {
    unsafe { (*std::ptr::addr_of_mut!(GOT)).push((i, m.anomaly_score.to_vec())) }
}
fn params(variant: usize) -> Parameters {
    let mut p = Parameters::default();
    p.pattern_length = [10, 12, 8][variant % 3];
    p.latent = [5, 4, 2][variant % 3];
    p.rate = [10, 12, 9][variant % 3];
    p.query_length = 12 + variant % 2;
    p.n_threads = 1 + variant % 3;
    p.self_correction = variant % 2 == 1;
    p
}
fn series(rows: usize, cols: usize, variant: usize) -> Array2<f32> {
    let mut seed = 17 * (variant + 1);
    Array2::from_shape_fn((rows, cols), |(i, d)| {
        let x = (if variant % 2 == 0 { rows - i } else { i }) as f32 * 0.7 + d as f32;
        let odd = if i > rows / 2 && i < rows / 2 + 6 { 0.8 } else { 0.0 };
        seed = (seed * 1103 + 12345) % 65536;
        x.sin() + odd * (2.3 * x).cos() + 0.3 * (seed as f32 / 65536.0 - 0.5)
    })
}
fn whole(k: usize, p: &Parameters, data: &Array2<f32>, mode: sched::Mode) -> Vec<Vec<f32>> {
    sched::reset();
    net::reset();
    unsafe { GOT = Vec::new() };
    let mut p = p.clone();
    if k > 1 {
        let path = vx::scratch("data.csv");
        let mut t = String::from("a");
        for c in 1..data.shape()[1] { t.push_str(&format!(",b{}", c)); }
        t.push('\n');
        for r in data.outer_iter() {
            for (c, x) in r.iter().enumerate() { if c > 0 { t.push(','); } t.push_str(&format!("{}", x)); }
            t.push('\n');
        }
        std::fs::File::create(&path).unwrap().write_all(t.as_bytes()).unwrap();
        p.role = crate::parameters::Role::Main { data_path: Some(path) };
    }
    let ts = cluster(k, &p);
    sched::set_mode(mode);
    for i in 0..k {
        let t = ts[i].clone();
        let mut m = std::collections::HashMap::new();
        for j in 0..k {
            if j != i { m.insert(j, net::member(j)); }
        }
        let data = if k == 1 { Some(data.clone()) } else { None };
        sched::remote(k, i, Box::new(move || t.do_send(StartTrainingMessage { nodes: ClusterNodes::from(m), source: Some(Recipient::vx_from_fn(i, take)), data })));
    }
    sched::run_all();
    vx::scratch_done();
    let g = unsafe { (*std::ptr::addr_of!(GOT)).clone() };
    let mut out = vec![];
    for i in 0..k {
        let mine: Vec<_> = g.iter().filter(|x| x.0 == i).collect();
        vx::check(mine.len() == 1, 1);
        out.push(mine[0].1.clone());
    }
    out
}
fn compare(want: &Vec<f32>, got: &Vec<Vec<f32>>, n: usize) {
    vx::check(want.len() == n, 2);
    for g in got {
        vx::check(g.len() == n, 2);
        for i in 0..n {
            vx::note(i as u32, (g[i] * 1000.0) as u64 * 10000 + (want[i] * 1000.0) as u64);
            vx::check((g[i] - want[i]).abs() < 0.01, 3);
        }
    }
    vx::cover(1);
    if want.iter().any(|x| *x > 0.2 && *x < 0.8) { vx::cover(2); }
}
vx::entry! { vh_same(k, rows, cols, variant) {
    let p = params(variant);
    let data = series(rows, cols, variant);
    let want = whole(1, &p, &data, sched::Mode::Fifo).remove(0);
    let got = whole(k, &p, &data, sched::Mode::Fifo);
    compare(&want, &got, rows - p.pattern_length + 1 - p.query_length);
} }
vx::entry! { vh_order(k, rows, few, variant) {
    let p = params(variant);
    let data = series(rows, 2, variant);
    let want = whole(1, &p, &data, sched::Mode::Fifo).remove(0);
    let got = whole(k, &p, &data, sched::Mode::Few(few));
    compare(&want, &got, rows - p.pattern_length + 1 - p.query_length);
} }
// every number of rows in a range
vx::entry! { vh_rows(k, from, span, variant) {
    let p = params(variant);
    let rows = from + vx::choose(span);
    let data = series(rows, 2, variant + vx::choose(2) * 6);
    let want = whole(1, &p, &data, sched::Mode::Fifo).remove(0);
    let got = whole(k, &p, &data, sched::Mode::Fifo);
    compare(&want, &got, rows - p.pattern_length + 1 - p.query_length);
    if rows % k > 1 { vx::cover(3); }
} }
// the series stands still in an arbitrary part, or from there on, or up to there
vx::entry! { vh_still(k, rows, cols, variant) {
    let p = params(variant);
    let mut data = series(rows, cols, variant);
    let n = rows / k;
    let (from, to) = match vx::choose(3) { 0 => (1, k), 1 => (0, 1), _ => (0, 2) };
    let m = vx::choose(k);
    let (a, b) = match (from, to) { (1, _) => (m, k), (_, 1) => (m, m + 1), _ => (0, m + 1) };
    // one part keeps moving
    vx::assume(b - a < k);
    for i in a * n..(b * n + p.pattern_length + 5).min(rows) { for d in 0..cols { data[[i, d]] = data[[a * n, d]]; } }
    let want = whole(1, &p, &data, sched::Mode::Fifo).remove(0);
    vx::assume(want.iter().all(|x| x.is_finite()));
    let got = whole(k, &p, &data, sched::Mode::Fifo);
    compare(&want, &got, rows - p.pattern_length + 1 - p.query_length);
    vx::cover(4);
} }
