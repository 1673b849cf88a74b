use super::*;
use actix::vx;
use ndarray::arr1;

/// the sector that contains (x, y); points near a border are excluded by the caller
fn in_sector(x: f32, y: f32, k: usize, n: usize) -> bool {
    // n >= 2: k <= angle < k+1 in units of 2*pi/n
    if n == 1 {
        return k == 0;
    }
    let w = 2.0 * std::f64::consts::PI / n as f64;
    let (c0, s0) = ((w * k as f64).cos() as f32, (w * k as f64).sin() as f32);
    let (c1, s1) = ((w * (k + 1) as f64).cos() as f32, (w * (k + 1) as f64).sin() as f32);
    let left_of_start = c0 * y - s0 * x > 0.0;
    let right_of_end = c1 * y - s1 * x < 0.0;
    if n == 2 { left_of_start } else { left_of_start & right_of_end }
}
// one point with any coordinates (further dimensions arbitrary), then mirrored
vx::entry! { vh_sector(n, dims, c, d) {
    vx::grid(n);
    let x = vx::float();
    let y = vx::float();
    vx::assume((x > -1000.0) & (x < 1000.0) & (y > -1000.0) & (y < 1000.0));
    vx::assume(vx::off_border(x, y, n, 0.001));
    vx::assume(vx::off_border(-x, y, n, 0.001));
    let mut v = vec![x, y];
    for _ in 2..dims { let z = vx::float(); vx::assume((z > -1000.0) & (z < 1000.0)); v.push(z); }
    let off = vx::range(0, 1000);
    let mut ds = DataStore::default();
    ds.add_points_with_offset(vec![arr1(&v)], off, n);
    let p = ds.get_points();
    vx::check(p.len() == 1, 1);
    vx::check(p[0].get_id() == off, 2);
    let k = p[0].get_segment();
    vx::note(1, k as u64);
    vx::check(k < n, 3);
    vx::check(in_sector(x, y, k, n), 4);
    let c = p[0].clone_coordinates();
    vx::check(c.len() == dims, 5);
    for i in 0..dims { vx::check(c[i] == v[i], 5); }
    vx::cover(1);
    ds.mirror_points(n);
    let p = ds.get_points();
    vx::check(p.len() == 1, 6);
    vx::check(p[0].get_id() == off, 6);
    let k = p[0].get_segment();
    vx::check(k < n, 7);
    vx::check(in_sector(-x, y, k, n), 7);
    let c = p[0].clone_coordinates();
    vx::check(c.len() == dims, 8);
    for i in 0..dims { vx::check(c[i] == if i == 0 { -v[0] } else { v[i] }, 8); }
    vx::cover(2);
} }
// several points keep order and ids, also when mirrored
vx::entry! { vh_many(m, n, c, d) {
    vx::grid(n);
    let off = vx::range(0, 1 << 20);
    let mut v = vec![];
    for _ in 0..m {
        let x = vx::float();
        let y = vx::float();
        vx::assume((x > -1.0) & (x < 1.0) & (y > -1.0) & (y < 1.0));
        vx::assume(vx::off_border(x, y, n, 0.001) & vx::off_border(-x, y, n, 0.001));
        v.push((x, y));
    }
    let mut ds = DataStore::default();
    ds.add_points_with_offset(v.iter().map(|q| arr1(&[q.0, q.1])).collect(), off, n);
    for round in 0..2 {
        let p = ds.get_points();
        vx::check(p.len() == m, 9);
        for i in 0..m {
            vx::check(p[i].get_id() == off + i, 9);
            let c = p[i].clone_coordinates();
            let (x, y) = (if round == 1 { -v[i].0 } else { v[i].0 }, v[i].1);
            vx::check((c[0] == x) & (c[1] == y), 9);
            vx::check(in_sector(x, y, p[i].get_segment(), n), 10);
        }
        if round == 0 { ds.mirror_points(n); }
    }
    vx::cover(3);
} }

// fixed points: around the circle at several distances, and (powers of two sectors) exactly on the axes
vx::entry! { vh_fixed(m, n, dims, seed) {
    let tau = 2.0 * std::f64::consts::PI;
    let mut v: Vec<Vec<f32>> = vec![];
    let mut want: Vec<(usize, usize)> = vec![];
    let sector = |t: f64| { let t = t - (t / tau).floor() * tau; (t / tau * n as f64) as usize % n };
    for i in 0..m {
        // the middle half of a sector
        let k = (i * 7 + seed) % n;
        let t = tau * (k as f64 + 0.3 + 0.4 * ((i * 31 + seed) % 10) as f64 / 10.0) / n as f64;
        let r = [1.0, 1e-4, 2500.0, 0.3][i % 4];
        let (x, y) = ((r * t.cos()) as f32, (r * t.sin()) as f32);
        // mirrored: only if that is not near a border
        let u = (std::f64::consts::PI - t) / tau * n as f64;
        let near = (u - u.floor() < 0.05) | (u - u.floor() > 0.95);
        let mut q = vec![x, y];
        for j in 2..dims { q.push(i as f32 - 3.5 * j as f32); }
        v.push(q);
        want.push((k, if near { n } else { sector(std::f64::consts::PI - t) }));
    }
    if n.is_power_of_two() && n >= 4 {
        for (j, (x, y)) in [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)].iter().enumerate() {
            let mut q = vec![2.5 * *x as f32, 2.5 * *y as f32];
            for j in 2..dims { q.push(j as f32); }
            v.push(q);
            want.push((j * n / 4, [2, 1, 0, 3][j] * n / 4));
        }
    }
    let off = seed * 1000;
    let mut ds = DataStore::default();
    ds.add_points_with_offset(v.iter().map(|q| arr1(q)).collect(), off, n);
    for round in 0..2 {
        let p = ds.get_points();
        vx::check(p.len() == v.len(), 9);
        for i in 0..v.len() {
            vx::check(p[i].get_id() == off + i, 9);
            let c = p[i].clone_coordinates();
            for d in 0..dims { vx::check(c[d] == if d == 0 && round == 1 { -v[i][d] } else { v[i][d] }, 9); }
            let w = if round == 0 { want[i].0 } else { want[i].1 };
            vx::check(p[i].get_segment() < n, 3);
            vx::check(w == n || p[i].get_segment() == w, 10);
        }
        if round == 0 { ds.mirror_points(n); }
    }
} }
