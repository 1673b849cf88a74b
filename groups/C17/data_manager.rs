//@ include dm.rs
use std::io::Write;

/// values of all kinds, all different
fn cell(i: usize, c: usize) -> f32 {
    let x = i as f32 * 10.0 + c as f32 + 0.5;
    match (i * 3 + c) % 5 { 0 => -x, 1 => x * 0.0009765625, 2 => x * 1048576.0, 3 => x.floor(), _ => x }
}
fn text(i: usize, c: usize) -> String {
    let x = cell(i, c);
    if (i + c) % 4 == 3 { format!("{:e}", x) } else { format!("{}", x) }
}
/// a file with the given shape
/// `empty`: number of empty lines, which do not count
fn file(rows: usize, cols: usize, spaces: bool, empty: usize) -> String {
    let path = vx::scratch("data.csv");
    let mut t = String::new();
    for c in 0..cols { if c > 0 { t.push(','); } t.push_str("h"); t.push((b'0' + c as u8) as char); }
    t.push('\n');
    for i in 0..rows {
        for c in 0..cols {
            if c > 0 { t.push(','); }
            if spaces { t.push(' '); }
            t.push_str(&text(i, c));
        }
        // the last line may lack its end
        if i + 1 < rows || spaces { t.push('\n'); }
        if empty > 1 && i == rows / 2 { t.push_str("\n\n"); }
    }
    if empty > 0 { t.push_str("\n\n"); }
    std::fs::File::create(&path).unwrap().write_all(t.as_bytes()).unwrap();
    path
}
fn run(k: usize, max: usize, pl: usize, cols: usize, mode: usize) {
    // every machine's share is longer than the overlap
    let rows = if mode == 2 { max } else { k * pl + vx::choose(max - k * pl + 1) };
    let from = vx::choose(cols);
    // 0: all remaining columns, positive: up to that column, negative: from the end
    let to = vx::choose(cols + 1);
    let neg = vx::choose(2) == 1;
    let until = if to == 0 { cols } else if neg { cols - to } else { to };
    vx::assume(until > from && !(neg && to == 0));
    let mut p = Parameters::default();
    p.pattern_length = pl;
    p.latent = 1;
    p.n_threads = 1;
    p.column_start = from;
    p.column_end = if neg { -(to as isize) } else { to as isize };
    let path = file(rows, cols, neg, if neg && until < cols { vx::choose(3) } else { 0 });
    p.role = Role::Main { data_path: Some(path) };
    let ms = managers(k, &p);
    match mode {
        0 | 2 => {}
        _ => sched::set_mode(sched::Mode::At(vx::choose(k))),
    }
    for i in 0..k {
        let a = ms[i].clone();
        if mode != 1 { a.do_send(LoadDataMessage { nodes: members(i, k) }) } else { sched::remote(k, i, Box::new(move || a.do_send(LoadDataMessage { nodes: members(i, k) }))) }
    }
    sched::run_all();
    vx::scratch_done();
    let share = rows / k;
    for i in 0..k {
        vx::check(result(i).is_some(), 1);
        let s = i * share;
        let e = if i == k - 1 { rows } else { (i + 1) * share + pl - 1 };
        sched::with(&ms[i], |m| {
            let d = m.data.as_ref().unwrap();
            vx::check(d.nrows() == e - s, 2);
            vx::check(d.ncols() == until - from, 3);
            for r in 0..e - s { for c in 0..until - from { vx::check(d[[r, c]] == cell(s + r, from + c), 4); } }
        });
        vx::check(result(i).unwrap().phase_space.shape() == [e - s - pl + 1, pl - 1, until - from], 5);
    }
    vx::cover(1);
    if rows % k > pl - 1 || k == 1 { vx::cover(2); }
    if neg && from > 0 { vx::cover(3); }
}
vx::entry! { vh_read(k, max, pl, cols) { run(k, max, pl, cols, 0) } }
vx::entry! { vh_at(k, max, pl, cols) { run(k, max, pl, cols, 1) } }
// more rows and machines
vx::entry! { vh_large(k, rows, pl, cols) { run(k, rows, pl, cols, 2) } }
