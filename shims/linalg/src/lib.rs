//! Stand-in for ndarray-linalg: textbook algorithms in plain Rust (LAPACK
//! cannot be executed symbolically).
use ndarray::*;
pub mod error {
    #[derive(Debug)]
    pub enum LinalgError {
        Singular,
        NotSquare,
    }
    impl std::fmt::Display for LinalgError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("LinalgError")
        }
    }
    impl std::error::Error for LinalgError {}
    pub type Result<T> = std::result::Result<T, LinalgError>;
}
use error::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UPLO {
    Upper,
    Lower,
}

pub trait Norm {
    type Output;
    fn norm(&self) -> Self::Output {
        self.norm_l2()
    }
    fn norm_l1(&self) -> Self::Output;
    fn norm_l2(&self) -> Self::Output;
    fn norm_max(&self) -> Self::Output;
}
impl<S: Data<Elem = f32>, D: Dimension> Norm for ArrayBase<S, D> {
    type Output = f32;
    fn norm_l1(&self) -> f32 {
        self.iter().map(|x| x.abs()).sum()
    }
    fn norm_l2(&self) -> f32 {
        self.iter().map(|x| x * x).sum::<f32>().sqrt()
    }
    fn norm_max(&self) -> f32 {
        self.iter().fold(0.0f32, |m, x| if x.abs() > m { x.abs() } else { m })
    }
}

pub trait Inverse {
    type Output;
    fn inv(&self) -> Result<Self::Output>;
}
impl<S: Data<Elem = f32>> Inverse for ArrayBase<S, Ix2> {
    type Output = Array2<f32>;
    fn inv(&self) -> Result<Array2<f32>> {
        let n = self.nrows();
        if n != self.ncols() {
            return Err(LinalgError::NotSquare);
        }
        let mut a = self.to_owned();
        let mut b = Array2::<f32>::eye(n);
        for c in 0..n {
            let mut p = c;
            for r in c + 1..n {
                if a[[r, c]].abs() > a[[p, c]].abs() {
                    p = r;
                }
            }
            if a[[p, c]] == 0.0 {
                return Err(LinalgError::Singular);
            }
            if p != c {
                for k in 0..n {
                    let t = a[[p, k]];
                    a[[p, k]] = a[[c, k]];
                    a[[c, k]] = t;
                    let t = b[[p, k]];
                    b[[p, k]] = b[[c, k]];
                    b[[c, k]] = t;
                }
            }
            let d = a[[c, c]];
            for k in 0..n {
                a[[c, k]] /= d;
                b[[c, k]] /= d;
            }
            for r in 0..n {
                if r != c {
                    let f = a[[r, c]];
                    if f != 0.0 {
                        for k in 0..n {
                            a[[r, k]] = a[[r, k]] - f * a[[c, k]];
                            b[[r, k]] = b[[r, k]] - f * b[[c, k]];
                        }
                    }
                }
            }
        }
        Ok(b)
    }
}

pub trait Cholesky {
    type Output;
    fn cholesky(&self, uplo: UPLO) -> Result<Self::Output>;
}
impl<S: Data<Elem = f32>> Cholesky for ArrayBase<S, Ix2> {
    type Output = Array2<f32>;
    fn cholesky(&self, uplo: UPLO) -> Result<Array2<f32>> {
        let n = self.nrows();
        let mut l = Array2::<f32>::zeros((n, n));
        for i in 0..n {
            for j in 0..=i {
                let mut s = self[[i, j]];
                for k in 0..j {
                    s -= l[[i, k]] * l[[j, k]];
                }
                if i == j {
                    if !(s > 0.0) {
                        return Err(LinalgError::Singular);
                    }
                    l[[i, i]] = s.sqrt();
                } else {
                    l[[i, j]] = s / l[[j, j]];
                }
            }
        }
        Ok(match uplo {
            UPLO::Lower => l,
            UPLO::Upper => l.reversed_axes(),
        })
    }
}

// In plain mode `qr` returns the factorisation A = I * A and `svd` fixed vectors, so that symbolic matrices can pass;
// what `svd` was asked to decompose is recorded in either mode.
static mut PLAIN: bool = false;
static mut ASKED: Vec<Array2<f32>> = Vec::new();
pub fn vx_plain(on: bool) {
    unsafe { PLAIN = on }
    vx_asked().clear();
}
pub fn vx_asked() -> &'static mut Vec<Array2<f32>> {
    unsafe { &mut *std::ptr::addr_of_mut!(ASKED) }
}
pub const VX_VT: [[f32; 3]; 3] = [[-0.6, 0.8, 0.0], [0.0, 0.0, -1.0], [0.8, 0.6, 0.0]];

pub trait QR {
    type Q;
    type R;
    fn qr(&self) -> Result<(Self::Q, Self::R)>;
}
impl<S: Data<Elem = f32>> QR for ArrayBase<S, Ix2> {
    type Q = Array2<f32>;
    type R = Array2<f32>;
    /// Householder, computed in f64; same sign convention as LAPACK geqrf
    fn qr(&self) -> Result<(Array2<f32>, Array2<f32>)> {
        let (m, n) = self.dim();
        if unsafe { PLAIN } {
            return Ok((Array2::eye(m), self.to_owned()));
        }
        let k = m.min(n);
        let mut a = self.mapv(|x| x as f64);
        let mut q = Array2::<f64>::eye(m);
        for c in 0..k {
            let mut s = 0.0;
            for r in c + 1..m {
                s += a[[r, c]] * a[[r, c]];
            }
            if s == 0.0 {
                continue;
            }
            let alpha = a[[c, c]];
            let norm = (alpha * alpha + s).sqrt();
            let beta = if alpha >= 0.0 { -norm } else { norm };
            let mut v = vec![0.0f64; m];
            v[c] = alpha - beta;
            for r in c + 1..m {
                v[r] = a[[r, c]];
            }
            let vv: f64 = v.iter().map(|x| x * x).sum();
            for j in 0..n {
                let mut d = 0.0;
                for r in c..m {
                    d += v[r] * a[[r, j]];
                }
                let f = 2.0 * d / vv;
                for r in c..m {
                    a[[r, j]] -= f * v[r];
                }
            }
            for i in 0..m {
                let mut d = 0.0;
                for r in c..m {
                    d += q[[i, r]] * v[r];
                }
                let f = 2.0 * d / vv;
                for r in c..m {
                    q[[i, r]] -= f * v[r];
                }
            }
        }
        let mut r = Array2::<f32>::zeros((k, n));
        for i in 0..k {
            for j in i..n {
                r[[i, j]] = a[[i, j]] as f32;
            }
        }
        let mut qq = Array2::<f32>::zeros((m, k));
        for i in 0..m {
            for j in 0..k {
                qq[[i, j]] = q[[i, j]] as f32;
            }
        }
        Ok((qq, r))
    }
}

pub trait SVD {
    type U;
    type VT;
    type Sigma;
    #[allow(clippy::type_complexity)]
    fn svd(&self, calc_u: bool, calc_vt: bool) -> Result<(Option<Self::U>, Self::Sigma, Option<Self::VT>)>;
}
impl<S: Data<Elem = f32>> SVD for ArrayBase<S, Ix2> {
    type U = Array2<f32>;
    type VT = Array2<f32>;
    type Sigma = Array1<f32>;
    /// one-sided Jacobi in f64; signs differ from LAPACK's in general
    fn svd(&self, _u: bool, _vt: bool) -> Result<(Option<Array2<f32>>, Array1<f32>, Option<Array2<f32>>)> {
        let (m, n) = self.dim();
        vx_asked().push(self.to_owned());
        if unsafe { PLAIN } {
            let vt = Array2::from_shape_fn((n, n), |(i, j)| if i < 3 && j < 3 { VX_VT[i][j] } else if i == j { 1.0 } else { 0.0 });
            return Ok((None, Array1::zeros(m.min(n)), Some(vt)));
        }
        let mut a = self.mapv(|x| x as f64);
        let mut v = Array2::<f64>::eye(n);
        for _ in 0..60 {
            let mut off = 0.0f64;
            for p in 0..n {
                for q in p + 1..n {
                    let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                    for i in 0..m {
                        al += a[[i, p]] * a[[i, p]];
                        be += a[[i, q]] * a[[i, q]];
                        ga += a[[i, p]] * a[[i, q]];
                    }
                    if ga == 0.0 {
                        continue;
                    }
                    let den = (al * be).sqrt();
                    let rel = if den > 0.0 { ga.abs() / den } else { 0.0 };
                    if rel > off {
                        off = rel;
                    }
                    if rel < 1e-15 {
                        continue;
                    }
                    let zeta = (be - al) / (2.0 * ga);
                    let sgn = if zeta >= 0.0 { 1.0 } else { -1.0 };
                    let t = sgn / (zeta.abs() + (1.0 + zeta * zeta).sqrt());
                    let c = 1.0 / (1.0 + t * t).sqrt();
                    let s = c * t;
                    for i in 0..m {
                        let (x, y) = (a[[i, p]], a[[i, q]]);
                        a[[i, p]] = c * x - s * y;
                        a[[i, q]] = s * x + c * y;
                    }
                    for i in 0..n {
                        let (x, y) = (v[[i, p]], v[[i, q]]);
                        v[[i, p]] = c * x - s * y;
                        v[[i, q]] = s * x + c * y;
                    }
                }
            }
            if off < 1e-15 {
                break;
            }
        }
        let mut sig: Vec<(f64, usize)> = (0..n)
            .map(|j| {
                let mut s = 0.0;
                for i in 0..m {
                    s += a[[i, j]] * a[[i, j]];
                }
                (s.sqrt(), j)
            })
            .collect();
        // insertion sort, descending, stable
        for i in 1..n {
            let mut j = i;
            while j > 0 && sig[j].0 > sig[j - 1].0 {
                sig.swap(j, j - 1);
                j -= 1;
            }
        }
        let k = m.min(n);
        let mut u = Array2::<f32>::zeros((m, k));
        let mut vt = Array2::<f32>::zeros((n, n));
        let mut s = Array1::<f32>::zeros(k);
        for (r, &(sv, j)) in sig.iter().enumerate() {
            for i in 0..n {
                vt[[r, i]] = v[[i, j]] as f32;
            }
            if r < k {
                s[r] = sv as f32;
                for i in 0..m {
                    u[[i, r]] = if sv > 0.0 { (a[[i, j]] / sv) as f32 } else { 0.0 };
                }
            }
        }
        Ok((Some(u), s, Some(vt)))
    }
}

pub mod solve {
    pub use super::Inverse;
}
pub mod qr {
    pub use super::QR;
}
