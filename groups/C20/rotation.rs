use super::*;
use crate::data_manager::DatasetStats;
use crate::interface::SyncInterface;
use crate::parameters::Parameters;
use actix::sched;
use actix::vx;
use actix::Actor;
use actix::Context;

static mut MATRIX: Option<Array3<f32>> = None;
fn matrix() -> &'static mut Option<Array3<f32>> {
    unsafe { &mut *std::ptr::addr_of_mut!(MATRIX) }
}
fn seen(t: &mut Training, m: RotationMatrixMessage, c: &mut Context<Training>) {
    vx::check(matrix().is_none(), 1);
    *matrix() = Some(m.rotation_matrix.clone());
    t.handle(m, c);
}
/// reduction done (fixed components and means): the stage computes the matrix and applies it
const AXES: [[f32; 3]; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
const TURNED: [[f32; 3]; 3] = [[0.0, 1.0, 0.0], [0.6, 0.0, 0.8], [0.8, 0.0, -0.6]];
fn reduction(kind: usize, c: usize) -> ([[f32; 3]; 3], [f32; 3]) {
    if kind == 0 { (AXES, [0.0; 3]) } else if (kind + c) % 2 == 0 { (AXES, [1.0 + c as f32, -2.0, 0.5]) } else { (TURNED, [0.5, c as f32, -1.0]) }
}
/// components * (x - means)
fn reduced(kind: usize, c: usize, x: [f32; 3]) -> [f32; 3] {
    let (w, mu) = reduction(kind, c);
    let mut y = [0.0; 3];
    for i in 0..3 { for j in 0..3 { y[i] += w[i][j] * (x[j] - mu[j]); } }
    y
}
fn run(kind: usize, refs: &[[f32; 3]], points: &[Vec<[f32; 3]>]) -> actix::Addr<Training> {
    *matrix() = None;
    let cols = refs.len();
    sched::stub::<Training, RotationMatrixMessage>(seen);
    let mut p = Parameters::default();
    p.rate = 4;
    let a = Training::init(p).start();
    sched::run_all();
    let n = points.len();
    let ps = Array3::from_shape_fn((n, 3, cols), |(i, j, c)| points[i][c][j]);
    let dr = Array3::from_shape_fn((2, 3, cols), |(i, j, c)| if i == 0 { refs[c][j] } else { 3.0 });
    sched::with(&a, |t| {
        t.rotation.reduced = Some(Array3::zeros((n, 3, cols)));
        t.rotation.reduced_ref = Some(Array3::zeros((2, 3, cols)));
        t.rotation.phase_space = Some(ps.to_shared());
        t.rotation.data_ref = Some(dr.to_shared());
        for c in 0..cols {
            let (w, mu) = reduction(kind, c);
            t.rotation.pca.components = Some(Array2::from_shape_fn((3, 3), |(i, j)| w[i][j]));
            t.rotation.pca.global_means = Some(arr1(&mu));
            t.rotation.n_reduced = c + 1;
            if c < cols - 1 { t.reduce(); }
        }
        t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), n));
    });
    a.do_send(PCADoneMessage);
    sched::hold_before(Some("::RotationDoneMessage"));
    sched::run_all();
    vx::check(sched::peek_local(0).map_or(false, |m| m.ends_with("::RotationDoneMessage")), 1);
    vx::check(matrix().is_some(), 1);
    a
}
fn zero(x: f32, t: f32) -> bool { (x < t) & (x > -t) }
fn check_matrix(m: &Array3<f32>, refs: &[[f32; 3]]) {
    let t = vx::tol(0.01, 0.002);
    vx::check(m.shape() == [3, 3, refs.len()], 2);
    for c in 0..refs.len() {
        let r = |i: usize, j: usize| m[[i, j, c]];
        // the reference direction becomes the last axis
        let v = refs[c];
        for i in 0..3 {
            let y = r(i, 0) * v[0] + r(i, 1) * v[1] + r(i, 2) * v[2];
            if i < 2 { vx::check(zero(y, t), 3); } else { vx::check(y > 0.0, 3); }
        }
        for i in 0..3 {
            for j in 0..=i {
                let mut d = 0.0;
                for l in 0..3 { d += r(i, l) * r(j, l); }
                if i == j { vx::check(zero(d - 1.0, t), 4) } else { vx::check(zero(d, t), 4) }
            }
        }
        let det = r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0));
        vx::check(zero(det - 1.0, t), 5);
    }
}
fn small(lim: f32) -> f32 {
    let x = vx::float();
    vx::assume((x > -lim) & (x < lim));
    x
}
/// a reference vector: polar angle by the half-angle tangent t > 0, azimuth by the half-angle tangent w
fn direction(azimuth: usize, scale: f32) -> [f32; 3] {
    let t = vx::float();
    vx::assume((t > 0.1) & (t < 10.0));
    // azimuth as a vector (u, v) of length n
    let (u, v, n) = match azimuth {
        0 => {
            let w = small(20.0);
            (1.0 - w * w, 2.0 * w, 1.0 + w * w)
        }
        1 => (1.0, 0.0, 1.0),
        2 => (0.0, 1.0, 1.0),
        3 => (-1.0, 0.0, 1.0),
        4 => (0.0, -1.0, 1.0),
        5 => (3.0, 4.0, 5.0),
        6 => (-4.0, 3.0, 5.0),
        7 => (-7.0, -24.0, 25.0),
        _ => (8.0, -15.0, 17.0),
    };
    vx::root((1.0 + t * t) * n * scale);
    vx::root(2.0 * t / (1.0 + t * t));
    [2.0 * t * u * scale, 2.0 * t * v * scale, (1.0 - t * t) * n * scale]
}
vx::entry! { vh_dir(chart, free, c, d) {
    let refs = [direction(chart, if free == 0 { 1.0 } else { let s = vx::float(); vx::assume((s > 0.05) & (s < 20.0)); s })];
    run(0, &refs, &[vec![[1.0, 2.0, 3.0]]]);
    check_matrix(matrix().as_ref().unwrap(), &refs);
    vx::cover(1);
} }
// the points: any coordinates, fixed directions per column
vx::entry! { vh_points(cols, n, k, kind) {
    let dirs = [[1.0, 2.0, 2.0], [-3.0, 0.0, 4.0], [0.5, -1.5, -2.0], [2.0, 0.1, 0.0]];
    let refs: Vec<[f32; 3]> = (0..cols).map(|c| dirs[(c + k) % 4]).collect();
    let ps: Vec<Vec<[f32; 3]>> = (0..n).map(|_| (0..cols).map(|_| [small(10.0), small(10.0), small(10.0)]).collect()).collect();
    judge(kind, &refs, &ps);
    vx::cover(2);
} }
// fixed directions and points, more of them
vx::entry! { vh_large(cols, n, k, kind) {
    let f = |x: usize| ((x * x * 31 + 17 * x + 5 * k) % 101) as f32 * 0.1 - 5.0;
    let refs: Vec<[f32; 3]> = (0..cols).map(|c| [f(3 * c + 1) + 0.05, f(3 * c + 2), f(3 * c + 40)]).collect();
    let ps: Vec<Vec<[f32; 3]>> = (0..n).map(|i| (0..cols).map(|c| [f(i + 7 * c), f(2 * i + c + 3), f(i * i + c)]).collect()).collect();
    judge(kind, &refs, &ps);
} }
fn judge(kind: usize, refs: &[[f32; 3]], ps: &[Vec<[f32; 3]>]) {
    let (cols, n) = (refs.len(), ps.len());
    let a = run(kind, refs, ps);
    let m = matrix().as_ref().unwrap();
    let dirs: Vec<[f32; 3]> = (0..cols).map(|c| reduced(kind, c, refs[c])).collect();
    check_matrix(m, &dirs);
    sched::with(&a, |t| {
        vx::check(t.num_rotated == Some(n), 6);
        let pts = t.data_store.get_points();
        vx::check(pts.len() == n, 6);
        for i in 0..n {
            let got = pts[i].clone_coordinates();
            vx::check(got.len() == 2 * cols, 6);
            for c in 0..cols {
                let x = reduced(kind, c, ps[i][c]);
                for d in 0..2 {
                    let want = m[[d, 0, c]] * x[0] + m[[d, 1, c]] * x[1] + m[[d, 2, c]] * x[2];
                    vx::check(zero(got[d * cols + c] - want, vx::tol(0.01, 0.002)), 7);
                }
            }
        }
    });
}
// the whole stage on fixed data: every column is reduced with its own principal components
vx::entry! { vh_flow(cols, n, width, threads) {
    *matrix() = None;
    sched::stub::<Training, RotationMatrixMessage>(seen);
    let mut p = Parameters::default();
    p.rate = 4;
    p.n_threads = threads;
    let a = Training::init(p).start();
    sched::run_all();
    let f = |x: usize| ((x * x * 31 + 17 * x) % 101) as f32 * 0.02 - 1.0;
    let value = |i: usize, j: usize, c: usize| f(i * (c + 2) + 7 * c) * (1.0 + 0.5 * (j + c) as f32) + f(i + 13 * j) * 0.4 + f(3 * i + j * j + c) * 0.2 + c as f32;
    let ps = Array3::from_shape_fn((n, width, cols), |(i, j, c)| value(i, j, c));
    let dr = Array3::from_shape_fn((4, width, cols), |(i, j, c)| (i + c) as f32 - 0.5 + 0.3 * j as f32);
    sched::with(&a, |t| {
        t.dataset_stats = Some(DatasetStats::new(arr1(&[]), arr1(&[]), arr1(&[]), n));
        t.rotate(ps.to_shared(), dr.to_shared());
    });
    sched::hold_before(Some("::RotationDoneMessage"));
    sched::run_all();
    vx::check(sched::held_once(0, "::RotationDoneMessage"), 1);
    let m = matrix().as_ref().unwrap();
    sched::with(&a, |t| {
        let red = t.rotation.reduced.as_ref().unwrap();
        let rref = t.rotation.reduced_ref.as_ref().unwrap();
        let dirs: Vec<[f32; 3]> = (0..cols).map(|c| [rref[[0, 0, c]], rref[[0, 1, c]], rref[[0, 2, c]]]).collect();
        check_matrix(m, &dirs);
        let pts = t.data_store.get_points();
        vx::check(pts.len() == n, 6);
        for c in 0..cols {
            // centered, uncorrelated, by decreasing spread
            let mut cov = [[0.0f32; 3]; 3];
            for i in 0..n { for k in 0..3 { for l in 0..3 { cov[k][l] += red[[i, k, c]] * red[[i, l, c]] / n as f32; } } }
            for k in 0..3 {
                let mean: f32 = (0..n).map(|i| red[[i, k, c]]).sum::<f32>() / n as f32;
                vx::check(zero(mean, 1e-3), 8);
                for l in 0..k {
                    vx::check(zero(cov[k][l], 2e-3 * (1.0 + cov[0][0])), 8);
                    vx::check(cov[k][k] < cov[l][l] + 1e-3, 8);
                }
            }
            for i in 0..n {
                let got = pts[i].clone_coordinates();
                for d in 0..2 {
                    let want = m[[d, 0, c]] * red[[i, 0, c]] + m[[d, 1, c]] * red[[i, 1, c]] + m[[d, 2, c]] * red[[i, 2, c]];
                    vx::check(zero(got[d * cols + c] - want, 0.005), 7);
                }
            }
            // distances between the first reduced reference point and the data survive the reduction
            for i in 0..n.min(5) {
                let x: f32 = (0..width).map(|j| (ps[[i, j, c]] - dr[[0, j, c]]).powi(2)).sum();
                let y: f32 = (0..3).map(|k| (red[[i, k, c]] - rref[[0, k, c]]).powi(2)).sum();
                if width == 3 { vx::check(zero((x.sqrt() - y.sqrt()) / (1.0 + x.sqrt()), 2e-3), 9); } else { vx::check(y < x * 1.01 + 0.01, 9); }
            }
        }
    });
    vx::cover(3);
} }
