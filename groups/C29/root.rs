use crate::{s2gpp, Parameters, Role};
use ndarray::Array2;
use actix::sched;
use actix::vx;
use std::io::Write;

fn run_params(variant: usize) -> Parameters {
    let mut p = Parameters::default();
    p.pattern_length = [10, 12, 8][variant % 3];
    p.latent = [5, 4, 2][variant % 3];
    p.rate = [10, 12, 9][variant % 3];
    p.query_length = 12 + variant % 2;
    p.self_correction = variant != 3;
    p
}
fn series(rows: usize, cols: usize, variant: usize) -> Array2<f32> {
    let mut seed = 17 * (variant + 1);
    Array2::from_shape_fn((rows, cols), |(i, d)| {
        let x = i as f32 * 0.7 + d as f32;
        let odd = if i > rows / 2 && i < rows / 2 + 6 { 0.8 } else { 0.0 };
        seed = (seed * 1103 + 12345) % 65536;
        x.sin() + odd * (2.3 * x).cos() + 0.3 * (seed as f32 / 65536.0 - 0.5)
    })
}
fn compare(rows: usize, cols: usize, variant: usize, start: usize, end: isize, threads: usize, few: usize) {
    let until = if end == 0 { cols } else if end > 0 { end as usize } else { (cols as isize + end) as usize };
    vx::assume(start < until);
    let data = series(rows, cols, variant);
    let mut p = run_params(variant);
    p.n_threads = threads;
    sched::reset();
    let selected = data.slice(ndarray::s![.., start..until]).to_owned();
    let want = s2gpp(p.clone(), Some(selected)).unwrap().unwrap();
    vx::check(want.len() == rows - p.pattern_length + 1 - p.query_length, 1);
    let path = vx::scratch("data.csv");
    let out = vx::scratch("score.csv");
    let mut t = String::from("a");
    for c in 1..cols { t.push_str(&format!(", b{}", c)); }
    t.push('\n');
    for (i, r) in data.outer_iter().enumerate() {
        for (c, x) in r.iter().enumerate() {
            if c > 0 { t.push(','); }
            // blanks around a value do not count
            if (i + c) % 3 == 0 { t.push(' '); }
            t.push_str(&format!("{}", x));
        }
        t.push('\n');
    }
    std::fs::File::create(&path).unwrap().write_all(t.as_bytes()).unwrap();
    p.role = Role::Main { data_path: Some(path) };
    p.score_output_path = Some(out.clone());
    p.column_start = start;
    p.column_end = end;
    sched::reset();
    sched::set_mode(sched::Mode::Few(few));
    let r = s2gpp(p, None).unwrap();
    vx::check(r.is_none(), 2);
    let text = std::fs::read_to_string(&out).unwrap();
    vx::scratch_done();
    let got: Vec<f32> = text.lines().map(|l| l.parse().unwrap()).collect();
    vx::check(got.len() == want.len(), 3);
    for i in 0..want.len() { let e = got[i] - want[i];
        vx::check(((e < 1e-4) & (e > -1e-4)) | ((got[i] != got[i]) & (want[i] != want[i])), 4); }
    vx::cover(1);
    if start > 0 && end < 0 { vx::cover(2); }
    if start > 0 && end > 0 && until < cols { vx::cover(3); }
    if want.iter().any(|x| *x > 0.2 && *x < 0.8) { vx::cover(4); }
}
// every column range and thread count
vx::entry! { vh_file(rows, cols, variant, threads) {
    let start = vx::choose(cols);
    let end = vx::choose(2 * cols) as isize + 1 - cols as isize;
    compare(rows, cols, variant, start, end, 1 + vx::choose(threads), 0);
} }
// schedules
vx::entry! { vh_order(rows, few, variant, threads) { compare(rows, 2, variant, 0, 0, threads, few) } }
vx::entries!(vh_file, vh_order);
