use super::*;
use crate::data_manager::{DataLoadedAndProcessed, DatasetStats};
use crate::interface::SyncInterface;
use crate::parameters::Parameters;
use actix::sched;
use actix::vx;
use actix::Actor;
use actix::Context;
use ndarray_linalg::{vx_asked, vx_plain, VX_VT};
//@ include cluster.rs

static mut SEEN: Vec<(usize, PCAComponents)> = Vec::new();
fn seen() -> &'static mut Vec<(usize, PCAComponents)> {
    unsafe { &mut *std::ptr::addr_of_mut!(SEEN) }
}
static mut COLS: usize = 0;
fn components(t: &mut Training, m: PCAComponents, c: &mut Context<Training>) {
    seen().push((sched::node(), m.clone()));
    t.handle(m, c);
}
/// the reduction of the last column is not followed by the rotation
fn done(t: &mut Training, m: PCADoneMessage, c: &mut Context<Training>) {
    if t.rotation.n_reduced < unsafe { COLS } { t.handle(m, c); }
}
fn zero(x: f32, t: f32) -> bool { (x < t) & (x > -t) }
fn small() -> f32 {
    let x = vx::float();
    vx::assume((x > -10.0) & (x < 10.0));
    x
}
fn val(i: usize, j: usize, c: usize) -> f32 {
    let n = (i * 31 + j * 17 + c * 7 + i * i * 3 + i * j * 5) % 23;
    (n as f32 - 11.0) * (0.5 + j as f32) + (i * j) as f32 * 0.25
}
/// machine i holds `data[i]`: rows x dims x columns
fn run(data: &[Array3<f32>], threads: usize, mode: usize, stages: usize) -> Vec<actix::Addr<Training>> {
    let k = data.len();
    let cols = data[0].shape()[2];
    let d = data[0].shape()[1];
    seen().clear();
    unsafe { COLS = cols }
    sched::stub::<Training, PCAComponents>(components);
    if stages == 0 { sched::stub::<Training, PCADoneMessage>(done); }
    let mut p = Parameters::default();
    p.rate = 4;
    p.n_threads = threads;
    let ts = cluster(k, &p);
    match mode {
        0 => {}
        1 => sched::set_mode(sched::Mode::Any),
        _ => sched::set_mode(sched::Mode::At(vx::choose(k))),
    }
    let rows: usize = data.iter().map(|x| x.shape()[0]).sum();
    for i in 0..k {
        let t = ts[i].clone();
        let ps = data[i].clone().to_shared();
        sched::remote(k, i, Box::new(move || {
            let dr = Array3::from_shape_fn((4, d, cols), |(a, b, c)| 1.0 + a as f32 + 2.0 * b as f32 - c as f32);
            t.do_send(DataLoadedAndProcessed { phase_space: ps, data_ref: dr.to_shared(), dataset_stats: DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), rows) })
        }));
    }
    sched::hold_before(Some("::RotationDoneMessage"));
    sched::run_all();
    ts
}
/// every machine got the components of every column once, all the same
fn agreed(k: usize, cols: usize) -> Vec<PCAComponents> {
    let mut out = vec![];
    for i in 0..k {
        let v: Vec<&PCAComponents> = seen().iter().filter(|x| x.0 == i).map(|x| &x.1).collect();
        vx::check(v.len() == cols, 1);
        if i == 0 {
            out = v.into_iter().cloned().collect();
        } else {
            for c in 0..cols {
                vx::check(v[c].components.shape() == out[c].components.shape(), 2);
                for (a, b) in v[c].components.iter().zip(out[c].components.iter()) { vx::check(*a == *b, 2); }
                for (a, b) in v[c].means.iter().zip(out[c].means.iter()) { vx::check(*a == *b, 2); }
            }
        }
    }
    out
}
/// the means are those of all rows, and what is decomposed has the scatter matrix of all rows
fn scatter(data: &[Array3<f32>], got: &[PCAComponents], tol: f32) {
    let cols = data[0].shape()[2];
    let d = data[0].shape()[1];
    vx::check(vx_asked().len() == cols, 3);
    for c in 0..cols {
        let rows: Vec<Vec<f32>> = data.iter().flat_map(|x| (0..x.shape()[0]).map(move |i| (0..d).map(|j| x[[i, j, c]]).collect())).collect();
        let n = rows.len() as f32;
        vx::check(got[c].means.len() == d, 3);
        for j in 0..d {
            let mut s = 0.0;
            for r in rows.iter() { s += r[j]; }
            vx::check(zero(got[c].means[j] * n - s, tol), 3);
        }
        let a = &vx_asked()[c];
        for i in 0..d {
            for j in 0..=i {
                // n * sum(xy) - sum(x) * sum(y)
                let (mut xy, mut x, mut y) = (0.0, 0.0, 0.0);
                for r in rows.iter() { xy += r[i] * r[j]; x += r[i]; y += r[j]; }
                let mut g = 0.0;
                for l in 0..a.shape()[0] { g += a[[l, i]] * a[[l, j]]; }
                vx::check(zero(g * n - (n * xy - x * y), tol), 4);
            }
        }
    }
}
fn fixed_vectors(got: &[PCAComponents]) {
    for g in got {
        vx::check(g.components.shape()[0] == 3, 5);
        for i in 0..3 {
            let s = if VX_VT[i][0] < 0.0 { -1.0 } else { 1.0 };
            for j in 0..3 { vx::check(g.components[[i, j]] == s * VX_VT[i][j], 5); }
        }
    }
}
// every matrix: any values, numbers of rows per machine and threads chosen
vx::entry! { vh_alg(k, rows, threads, cols) {
    vx_plain(true);
    vx::root(0.0);
    let t = 1 + vx::choose(threads);
    let data: Vec<Array3<f32>> = (0..k).map(|_| {
        let n = 1 + vx::choose(rows);
        Array3::from_shape_fn((n, 3, cols), |_| small())
    }).collect();
    run(&data, t, 0, 0);
    let got = agreed(k, cols);
    scatter(&data, &got, vx::tol(0.5, 0.05));
    fixed_vectors(&got);
    vx::cover(1);
} }
// every order of the messages; fixed matrices
fn orders(k: usize, rows: usize, t: usize, cols: usize, mode: usize) {
    vx_plain(true);
    let data: Vec<Array3<f32>> = (0..k).map(|m| Array3::from_shape_fn((rows + m % 2, 3, cols), |(i, j, c)| val(i + 5 * m, j, c))).collect();
    let ts = run(&data, t, mode, 1);
    let got = agreed(k, cols);
    scatter(&data, &got, 20.0);
    fixed_vectors(&got);
    for i in 0..k {
        vx::check(sched::held_once(i, "::RotationDoneMessage"), 1);
        sched::with(&ts[i], |t| vx::check(t.data_store.get_points().len() == data[i].shape()[0], 1));
    }
    vx::cover(2);
}
vx::entry! { vh_order(k, rows, threads, cols) { orders(k, rows, threads, cols, 1) } }
vx::entry! { vh_at(k, rows, threads, cols) { orders(k, rows, threads, cols, 2) } }
// every split: number of rows and threads chosen, fixed values
vx::entry! { vh_split(k, rows, threads, cols) {
    vx_plain(true);
    let t = 1 + vx::choose(threads);
    let data: Vec<Array3<f32>> = (0..k).map(|m| {
        let n = 1 + vx::choose(rows);
        Array3::from_shape_fn((n, 3, cols), |(i, j, c)| val(i + 5 * m, j, c))
    }).collect();
    run(&data, t, 0, 1);
    let got = agreed(k, cols);
    scatter(&data, &got, 50.0);
    fixed_vectors(&got);
    vx::cover(3);
} }
// larger fixed splits
vx::entry! { vh_large(k, rows, threads, cols) {
    vx_plain(true);
    let data: Vec<Array3<f32>> = (0..k).map(|m| Array3::from_shape_fn((rows + (m * m * 3) % 5, 3, cols), |(i, j, c)| val(i + 5 * m, j, c))).collect();
    run(&data, threads, 0, 1);
    let got = agreed(k, cols);
    // relative to n * sum of squares
    let n: usize = data.iter().map(|x| x.shape()[0]).sum();
    let m = data.iter().flat_map(|x| x.iter()).fold(0.0f32, |a, b| a.max(b.abs()));
    scatter(&data, &got, 0.002 * (n * n) as f32 * m * m);
    fixed_vectors(&got);
} }
// the components themselves: orthonormal eigenvectors of the scatter matrix, largest first, first coordinate not negative
vx::entry! { vh_vectors(k, rows, threads, dims) {
    vx_plain(false);
    let t = 1 + vx::choose(threads);
    let data: Vec<Array3<f32>> = (0..k).map(|m| {
        let n = rows + vx::choose(3);
        Array3::from_shape_fn((n, dims, 2), |(i, j, c)| val(i + 5 * m, j, c))
    }).collect();
    run(&data, t, 0, 1);
    let got = agreed(k, 2);
    for c in 0..2 {
        let rows: Vec<Vec<f64>> = data.iter().flat_map(|x| (0..x.shape()[0]).map(move |i| (0..dims).map(|j| x[[i, j, c]] as f64).collect())).collect();
        let n = rows.len() as f64;
        let mu: Vec<f64> = (0..dims).map(|j| rows.iter().map(|r| r[j]).sum::<f64>() / n).collect();
        let s = |i: usize, j: usize| rows.iter().map(|r| (r[i] - mu[i]) * (r[j] - mu[j])).sum::<f64>();
        let m = Array2::from_shape_fn((dims, dims), |(i, j)| s(i, j));
        let w = got[c].components.mapv(|x| x as f64);
        vx::check(w.shape() == [3, dims], 5);
        let scale: f64 = (0..dims).map(|i| m[[i, i]]).sum();
        let mut last = scale * 2.0;
        for a in 0..3 {
            for b in 0..=a {
                let d: f64 = (0..dims).map(|j| w[[a, j]] * w[[b, j]]).sum();
                let want = if a == b { 1.0 } else { 0.0 };
                vx::check((d - want).abs() < 0.001, 6);
            }
            let y: Vec<f64> = (0..dims).map(|i| (0..dims).map(|j| m[[i, j]] * w[[a, j]]).sum()).collect();
            let l: f64 = (0..dims).map(|i| y[i] * w[[a, i]]).sum();
            for i in 0..dims { vx::check((y[i] - l * w[[a, i]]).abs() < 0.002 * scale, 7); }
            vx::check(l <= last + 0.002 * scale, 8);
            last = l;
            vx::check(w[[a, 0]] >= 0.0, 9);
        }
        // nothing larger is left out
        let rest = scale - (0..3).map(|a| { let y: Vec<f64> = (0..dims).map(|i| (0..dims).map(|j| m[[i, j]] * w[[a, j]]).sum()).collect(); (0..dims).map(|i| y[i] * w[[a, i]]).sum::<f64>() }).sum::<f64>();
        vx::check(rest <= last * (dims - 3) as f64 + 0.002 * scale, 8);
        for j in 0..dims { vx::check((got[c].means[j] as f64 - mu[j]).abs() < 0.01, 3); }
    }
    vx::cover(4);
} }
