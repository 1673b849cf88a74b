//@ include graph.rs
//@ include score.rs

static mut RAWS: Vec<f32> = Vec::new();
fn helper(h: &mut ScoringHelper, m: ScoringHelperInstruction, _: &mut actix::SyncContext<ScoringHelper>) {
    let r = unsafe { &*std::ptr::addr_of!(RAWS) };
    h.receiver.do_send(ScoringHelperResponse { start: m.start, scores: r[m.start..m.start + m.length].to_vec(), first_empty: false });
}
/// runs the end of a local run in which the workers computed the given raw scores
fn finish(raw: &[f32], threads: usize, out: Option<String>) {
    unsafe { *std::ptr::addr_of_mut!(RAWS) = raw.to_vec() };
    sched::stub::<ScoringHelper, ScoringHelperInstruction>(helper);
    let mut p = Parameters::default();
    p.query_length = 2;
    p.n_threads = threads;
    p.score_output_path = out;
    let a = Training::init(p).start();
    sched::run_all();
    let es = [E { f: (0, 0), t: (1, 0), fid: 0, id: 0 }, E { f: (1, 0), t: (1, 1), fid: 0, id: 1 }];
    sched::with(&a, |t| {
        t.data_store.add_edges(es.iter().map(|e| e.edge()).collect());
        t.num_rotated = Some(raw.len() + 2);
        t.sink = Some(sink());
    });
    a.do_send(EdgeEstimationDone);
    sched::run_all();
}

// n arbitrary raw scores of the given magnitude
vx::entry! { vh_scale(n, threads, mag, d) {
    // magnitudes below one: 10^-d
    let e = [1.0f32, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001][d];
    let m = mag as f32 * e;
    let mut raw = vec![];
    for _ in 0..n {
        let x = vx::float();
        vx::assume((x >= -m) & (x <= m));
        raw.push(x);
    }
    // not constant
    let mut varied = false;
    for i in 1..n { varied = varied | (raw[i] > raw[0] + 0.01 * e) | (raw[i] < raw[0] - 0.01 * e); }
    vx::assume(varied);
    finish(&raw, threads, None);
    let g = got();
    vx::check(g.len() == 1, 1);
    let g = &g[0];
    vx::check(g.len() == n, 2);
    let t = vx::tol(1e-3, 1e-5);
    for i in 0..n {
        vx::check((g[i] >= -t) & (g[i] <= 1.0 + t), 3);
        let mut lowest = true;
        let mut highest = true;
        for j in 0..n {
            if i == j { continue; }
            lowest = lowest & (raw[i] <= raw[j]);
            highest = highest & (raw[i] >= raw[j]);
            vx::check(!(raw[i] < raw[j]) | (g[i] <= g[j] + t), 6);
        }
        vx::check(!lowest | (g[i] < t), 4);
        vx::check(!highest | (g[i] > 1.0 - t), 5);
    }
    // proportions are kept
    if n >= 3 {
        let l = (raw[1] - raw[0]) * (g[2] - g[0]);
        let r = (raw[2] - raw[0]) * (g[1] - g[0]);
        let t = t * 8.0 * m;
        vx::check((l - r < t) & (r - l < t), 7);
    }
    vx::cover(1);
} }

// the file contains what the caller gets
vx::entry! { vh_file(n, threads, c, d) {
    let vals = [-3.0f32, -1.0, -0.33333334, -1e-7, -12345.678, 0.0];
    let mut raw = vec![];
    for i in 0..n { raw.push(vals[(vx::choose(3) * 2 + i) % 6]); }
    vx::assume((1..n).any(|i| raw[i] != raw[0]));
    let path = vx::scratch("score.csv");
    // the file may exist already
    if vx::choose(2) == 1 {
        vx::cover(3);
        std::fs::write(&path, "0.125\n0.25\n0.125\n0.25\n0.125\n0.25\n0.125\n0.25\n0.125\n0.25\n0.125\n0.25\n0.125\n0.25\n").unwrap();
    }
    finish(&raw, threads, Some(path.clone()));
    let text = std::fs::read_to_string(&path).unwrap();
    vx::scratch_done();
    let g = got();
    vx::check(g.len() == 1, 1);
    let lines: Vec<&str> = text.lines().collect();
    vx::check(lines.len() == n, 8);
    vx::check(g[0].len() == n, 2);
    let lo = raw.iter().copied().fold(f32::MAX, f32::min);
    let hi = raw.iter().copied().fold(f32::MIN, f32::max);
    for i in 0..n {
        let x: f32 = lines[i].parse().unwrap();
        vx::check(x == g[0][i], 9);
        vx::check(near(x, (raw[i] - lo) / (hi - lo)), 9);
    }
    vx::cover(2);
} }
