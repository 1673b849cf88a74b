use super::*;
use actix::vx;
use ndarray::Array2;
fn small(lim: f32) -> f32 {
    let x = vx::float();
    vx::assume((x > -lim) & (x < lim));
    x
}
fn near0(x: f32, tol: f32) -> bool { (x < tol) & (x > -tol) }
// two dimensions, everything arbitrary
vx::entry! { vh_plane2(fixed_plane, b, c, d) {
    let p = [small(10.0), small(10.0)];
    let q = [small(10.0), small(10.0)];
    let u = if fixed_plane == 0 { [small(10.0), small(10.0)] } else { [[3.0, 1.0], [0.0, 2.0], [-1.0, 1.0], [-2.0, -0.5]][fixed_plane - 1] };
    let det = u[0] * (q[1] - p[1]) - u[1] * (q[0] - p[0]);
    vx::assume((det > 0.5) | (det < -0.5));
    let line = Array2::from_shape_vec((2, 2), vec![p[0], p[1], q[0], q[1]]).unwrap();
    let plane = Array2::from_shape_vec((2, 2), vec![0.0, 0.0, u[0], u[1]]).unwrap();
    let x = line_plane_intersection(line, plane).unwrap();
    vx::check(x.len() == 2, 1);
    let t = vx::tol(0.01, 0.002);
    // on the plane, on the line
    vx::check(near0(x[0] * u[1] - x[1] * u[0], t), 2);
    vx::check(near0((x[0] - p[0]) * (q[1] - p[1]) - (x[1] - p[1]) * (q[0] - p[0]), t), 3);
    vx::cover(1);
} }
/// plane points the way the border planes look: origin, corners, end point
fn plane(dims: usize, m: f32, a: f32) -> Vec<Vec<f32>> {
    let mut end = vec![m; dims];
    end[0] = m * a.cos();
    end[1] = m * a.sin();
    let mut v = vec![vec![0.0; dims]];
    for d in 2..dims { let mut c = end.clone(); c[d] = 0.0; v.push(c); }
    v.push(end);
    v
}
fn go(dims: usize, p: &Vec<f32>, q: &Vec<f32>, a: f32) {
    let pl = plane(dims, 20.0, a);
    let line = Array2::from_shape_vec((2, dims), p.iter().chain(q.iter()).cloned().collect()).unwrap();
    let planes = Array2::from_shape_vec((dims, dims), pl.into_iter().flatten().collect()).unwrap();
    let x = line_plane_intersection(line, planes).unwrap();
    vx::check(x.len() == dims, 1);
    let t = vx::tol(0.02, 0.004);
    // the plane consists of all points whose first two coordinates point in direction a
    vx::check(near0(x[0] * a.sin() - x[1] * a.cos(), t), 2);
    for i in 0..dims {
        for j in 0..i {
            vx::check(near0((x[i] - p[i]) * (q[j] - p[j]) - (x[j] - p[j]) * (q[i] - p[i]), t), 3);
        }
    }
    vx::cover(2);
}
// any start, listed directions of the line
vx::entry! { vh_planed(dims, dir, ang, d) {
    let p: Vec<f32> = (0..dims).map(|_| small(10.0)).collect();
    let a = 0.3 + ang as f32;
    let k = 0.7 + dir as f32;
    let q: Vec<f32> = (0..dims).map(|i| if i == 0 { p[0] - k } else { p[i] + 0.5 * i as f32 }).collect();
    go(dims, &p, &q, a)
} }
// listed starts, any direction of the line
vx::entry! { vh_dir(dims, ang, c, d) {
    let p: Vec<f32> = (0..dims).map(|i| 1.0 + i as f32).collect();
    let a = 0.3 + ang as f32;
    let v: Vec<f32> = (0..dims).map(|_| small(4.0)).collect();
    let det = v[1] * a.cos() - v[0] * a.sin();
    vx::assume((det > 0.5) | (det < -0.5));
    let q: Vec<f32> = (0..dims).map(|i| p[i] + v[i]).collect();
    go(dims, &p, &q, a)
} }
