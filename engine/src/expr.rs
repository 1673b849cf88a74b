//! Hash-consed symbolic expressions.
//! Widths: 1 = boolean, n>1 = bit vector, 0 = real number.
use std::collections::HashMap;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    // comparisons (width 1 result)
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point over bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    // reals
    RAdd,
    RSub,
    RMul,
    RDiv,
    RLt,
    RLe,
    REq,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U {
    ZExt,
    SExt,
    FNeg,
    FAbs,
    FSqrt,
    FIsNan,
    FCast,
    UToF,
    SToF,
    FToU,
    FToS,
    FRoundDown,
    FRoundUp,
    FTrunc,
    /// opaque float bit pattern of a real
    RBits,
    RNeg,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum X {
    Const(u128),
    Var(u32),
    RConst(u64),
    RVar(u32),
    Bin(B, E, E),
    Un(U, E),
    Extract(E, u16),
    Concat(E, E),
    Ite(E, E, E),
}
pub struct Node {
    pub x: X,
    pub w: u16,
    pub umax: u128,
}
#[derive(Default)]
pub struct Ctx {
    pub n: Vec<Node>,
    map: HashMap<(X, u16), E>,
    pub nvars: u32,
    pub var_e: Vec<E>,
    /// set of variables, as sorted ids (bit-vector ids and real ids share one space)
    vars: HashMap<E, std::rc::Rc<Vec<u32>>>,
    /// constraints that only define one auxiliary variable (always satisfiable for it)
    pub defs: HashMap<E, u32>,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    crate::ir::sext(v, w)
}
impl Ctx {
    pub fn mk(&mut self, x: X, w: u32) -> E {
        if let Some(&e) = self.map.get(&(x, w as u16)) {
            return e;
        }
        let e = self.n.len() as E;
        let m = if w == 0 { 0 } else { mask(w) };
        let um = match x {
            X::Const(v) => v,
            X::Bin(b, p, q) if w > 0 => {
                let (a, c) = (self.n[p as usize].umax, self.n[q as usize].umax);
                match b {
                    B::Add => a.checked_add(c).filter(|x| *x <= m).unwrap_or(m),
                    B::Mul => a.checked_mul(c).filter(|x| *x <= m).unwrap_or(m),
                    B::And => a.min(c),
                    B::UDiv => match self.n[q as usize].x {
                        X::Const(k) if k > 0 => a / k,
                        _ => m,
                    },
                    B::URem => match self.n[q as usize].x {
                        X::Const(k) if k > 0 => a.min(k - 1),
                        _ => a,
                    },
                    B::LShr => a,
                    B::Or | B::Xor => {
                        let z = a.max(c).leading_zeros();
                        if z == 0 {
                            m
                        } else {
                            mask(128 - z).min(m)
                        }
                    }
                    B::Shl => match self.n[q as usize].x {
                        X::Const(k) if k < 100 && a.leading_zeros() as u128 > k => (a << k).min(m),
                        _ => m,
                    },
                    _ => m,
                }
            }
            X::Un(U::ZExt, a) => self.n[a as usize].umax,
            X::Ite(_, a, b) => self.n[a as usize].umax.max(self.n[b as usize].umax),
            X::Concat(h, l) => {
                let lw = self.n[l as usize].w as u32;
                (self.n[h as usize].umax << lw) | mask(lw)
            }
            X::Extract(a, 0) => self.n[a as usize].umax.min(m),
            _ => m,
        };
        self.n.push(Node { x, w: w as u16, umax: um });
        self.map.insert((x, w as u16), e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn x(&self, e: E) -> X {
        self.n[e as usize].x
    }
    /// unsigned division on fewer bits when both operands are known to be small
    fn narrow(&mut self, b: B, p: E, q: E, w: u32) -> Option<E> {
        let mx = self.umax(p).max(self.umax(q));
        let k = (128 - mx.leading_zeros()).max(2);
        if k + 2 > w {
            return None;
        }
        if b == B::UDiv && self.as_c(q).is_none() {
            // division by zero is a trap before this point; keep it full width
            return None;
        }
        let a = self.extract(p, 0, k);
        let c = self.extract(q, 0, k);
        let r = self.bin(b, a, c);
        Some(self.zext(r, w))
    }
    pub fn umax(&self, e: E) -> u128 {
        self.n[e as usize].umax
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(X::Const(v & mask(w)), w)
    }
    pub fn as_c(&self, e: E) -> Option<u128> {
        match self.n[e as usize].x {
            X::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, w: u32) -> E {
        let v = self.nvars;
        self.nvars += 1;
        let e = self.mk(X::Var(v), w);
        self.var_e.push(e);
        e
    }
    pub fn rvar(&mut self) -> E {
        let v = self.nvars;
        self.nvars += 1;
        let e = self.mk(X::RVar(v), 0);
        self.var_e.push(e);
        e
    }
    pub fn rc(&mut self, f: f64) -> E {
        let f = if f == 0.0 { 0.0 } else { f };
        self.mk(X::RConst(f.to_bits()), 0)
    }
    pub fn as_rc(&self, e: E) -> Option<f64> {
        match self.n[e as usize].x {
            X::RConst(v) => Some(f64::from_bits(v)),
            _ => None,
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let t = self.tt();
        match self.x(e) {
            X::Const(v) => self.c(1 - v, 1),
            X::Bin(B::Xor, a, b) if b == t => a,
            X::Bin(B::RLt, a, b) => self.mk(X::Bin(B::RLe, b, a), 1),
            X::Bin(B::RLe, a, b) => self.mk(X::Bin(B::RLt, b, a), 1),
            X::Bin(B::Ult, a, b) => self.bin(B::Ule, b, a),
            X::Bin(B::Ule, a, b) => self.bin(B::Ult, b, a),
            X::Bin(B::Slt, a, b) => self.bin(B::Sle, b, a),
            X::Bin(B::Sle, a, b) => self.bin(B::Slt, b, a),
            _ => self.mk(X::Bin(B::Xor, e, t), 1),
        }
    }
    pub fn bin(&mut self, b: B, p: E, q: E) -> E {
        use B::*;
        let w = self.w(p);
        let m = mask(w);
        if let (Some(a), Some(c)) = (self.as_c(p), self.as_c(q)) {
            if let Some((v, rw)) = fold(b, a, c, w) {
                return self.c(v, rw);
            }
        }
        if w == 0 {
            // reals
            let (ca, cb) = (self.as_rc(p), self.as_rc(q));
            match b {
                RAdd => {
                    if ca == Some(0.0) {
                        return q;
                    }
                    if cb == Some(0.0) {
                        return p;
                    }
                    if ca.is_some() && cb.is_none() {
                        return self.mk(X::Bin(RAdd, q, p), 0);
                    }
                }
                RSub => {
                    if cb == Some(0.0) {
                        return p;
                    }
                    if p == q {
                        return self.rc(0.0);
                    }
                }
                RMul => {
                    if ca == Some(0.0) || cb == Some(0.0) {
                        return self.rc(0.0);
                    }
                    if ca == Some(1.0) {
                        return q;
                    }
                    if cb == Some(1.0) {
                        return p;
                    }
                    if p > q {
                        return self.mk(X::Bin(RMul, q, p), 0);
                    }
                }
                RDiv => {
                    if cb == Some(1.0) {
                        return p;
                    }
                    if ca == Some(0.0) {
                        return p;
                    }
                }
                RLt => {
                    if p == q {
                        return self.ff();
                    }
                    if let (Some(a), Some(c)) = (ca, cb) {
                        return self.c((a < c) as u128, 1);
                    }
                    if let (X::Un(U::RBits, _), _) = (self.x(p), 0) {
                        unreachable!()
                    }
                    return self.mk(X::Bin(b, p, q), 1);
                }
                RLe => {
                    if p == q {
                        return self.tt();
                    }
                    if let (Some(a), Some(c)) = (ca, cb) {
                        return self.c((a <= c) as u128, 1);
                    }
                    return self.mk(X::Bin(b, p, q), 1);
                }
                REq => {
                    if p == q {
                        return self.tt();
                    }
                    if let (Some(a), Some(c)) = (ca, cb) {
                        return self.c((a == c) as u128, 1);
                    }
                    let (p, q) = if p > q { (q, p) } else { (p, q) };
                    return self.mk(X::Bin(b, p, q), 1);
                }
                _ => panic!("bin real {b:?}"),
            }
            return self.mk(X::Bin(b, p, q), 0);
        }
        let cp = self.as_c(p);
        let cq = self.as_c(q);
        match b {
            Add | Mul | And | Or | Xor if cp.is_some() && cq.is_none() => return self.bin(b, q, p),
            Add => {
                if cq == Some(0) {
                    return p;
                }
                if let (Some(k), X::Bin(Add, a, c)) = (cq, self.x(p)) {
                    if let Some(k2) = self.as_c(c) {
                        let kk = self.c(k.wrapping_add(k2), w);
                        return self.bin(Add, a, kk);
                    }
                }
                if w == 1 {
                    return self.bin(Xor, p, q);
                }
                // (a - b) + b
                if let X::Bin(Sub, a, c) = self.x(p) {
                    if c == q {
                        return a;
                    }
                }
            }
            Sub => {
                if cq == Some(0) {
                    return p;
                }
                if p == q {
                    return self.c(0, w);
                }
                if let Some(k) = cq {
                    let kk = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(Add, p, kk);
                }
                if let X::Bin(Add, a, c) = self.x(p) {
                    if c == q {
                        return a;
                    }
                    if a == q {
                        return c;
                    }
                }
            }
            Mul => {
                if cq == Some(0) {
                    return q;
                }
                if cq == Some(1) {
                    return p;
                }
                if w == 1 {
                    return self.bin(And, p, q);
                }
                if let Some(k) = cq {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Shl, p, s);
                    }
                }
            }
            UDiv | SDiv if cq == Some(1) => return p,
            UDiv => {
                if let Some(k) = cq {
                    if k > self.umax(p) {
                        return self.c(0, w);
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(LShr, p, s);
                    }
                }
                if let Some(r) = self.narrow(b, p, q, w) {
                    return r;
                }
            }
            URem => {
                if let Some(k) = cq {
                    if k > self.umax(p) {
                        return p;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(And, p, s);
                    }
                }
                if let Some(r) = self.narrow(b, p, q, w) {
                    return r;
                }
            }
            Shl | LShr | AShr => {
                if cq == Some(0) {
                    return p;
                }
                if b == LShr {
                    if let Some(k) = cq {
                        if k >= w as u128 || (self.umax(p) >> k) == 0 {
                            return self.c(0, w);
                        }
                        let x = self.extract(p, k as u32, w - k as u32);
                        return self.zext(x, w);
                    }
                }
            }
            And => {
                if cq == Some(0) {
                    return q;
                }
                if cq == Some(m) || p == q {
                    return p;
                }
                if let Some(k) = cq {
                    // mask covering all possible bits
                    if (k + 1).is_power_of_two() && self.umax(p) <= k {
                        return p;
                    }
                }
                if w == 1 {
                    if self.not(p) == q {
                        return self.ff();
                    }
                    if p > q {
                        return self.mk(X::Bin(And, q, p), 1);
                    }
                }
            }
            Or => {
                if cq == Some(0) || p == q {
                    return p;
                }
                if cq == Some(m) {
                    return q;
                }
                for (hi, lo) in [(p, q), (q, p)] {
                    if let X::Bin(Shl, x, k) = self.x(hi) {
                        if let Some(k) = self.as_c(k) {
                            if k > 0 && k < w as u128 && self.umax(lo) >> k == 0 {
                                let h = self.extract(x, 0, w - k as u32);
                                let l = self.extract(lo, 0, k as u32);
                                return self.concat(h, l);
                            }
                        }
                    }
                }
                if w == 1 {
                    if self.not(p) == q {
                        return self.tt();
                    }
                    if p > q {
                        return self.mk(X::Bin(Or, q, p), 1);
                    }
                }
            }
            Xor => {
                if cq == Some(0) {
                    return p;
                }
                if p == q {
                    return self.c(0, w);
                }
                if w == 1 && cq == Some(1) {
                    return self.not(p);
                }
            }
            Eq => {
                if p == q {
                    return self.tt();
                }
                if w == 1 {
                    let x = self.bin(Xor, p, q);
                    return self.not(x);
                }
                if cp.is_some() && cq.is_none() {
                    return self.bin(Eq, q, p);
                }
                if let Some(k) = cq {
                    if k > self.umax(p) {
                        return self.ff();
                    }
                    match self.x(p) {
                        X::Un(U::ZExt, a) => {
                            let kk = self.c(k, self.w(a));
                            return self.bin(Eq, a, kk);
                        }
                        X::Bin(Add, a, c) => {
                            if let Some(k2) = self.as_c(c) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.bin(Eq, a, kk);
                            }
                        }
                        X::Bin(Xor, a, c) => {
                            if let Some(k2) = self.as_c(c) {
                                let kk = self.c(k ^ k2, w);
                                return self.bin(Eq, a, kk);
                            }
                        }
                        X::Ite(c, a, d) => {
                            if self.as_c(a).is_some() || self.as_c(d).is_some() {
                                let x = self.bin(Eq, a, q);
                                let y = self.bin(Eq, d, q);
                                return self.ite(c, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                if p > q {
                    if cq.is_none() {
                        return self.mk(X::Bin(Eq, q, p), 1);
                    }
                }
                return self.mk(X::Bin(Eq, p, q), 1);
            }
            Ult => {
                if p == q || cq == Some(0) {
                    return self.ff();
                }
                if w == 1 {
                    let n = self.not(p);
                    return self.bin(And, n, q);
                }
                if let Some(k) = cq {
                    if self.umax(p) < k {
                        return self.tt();
                    }
                    if k == 1 {
                        let z = self.c(0, w);
                        return self.bin(Eq, p, z);
                    }
                    if let X::Un(U::ZExt, a) = self.x(p) {
                        let kk = self.c(k, self.w(a));
                        return self.bin(Ult, a, kk);
                    }
                }
                if let Some(k) = cp {
                    if k >= self.umax(q) {
                        return self.ff();
                    }
                    if let X::Un(U::ZExt, a) = self.x(q) {
                        let kk = self.c(k, self.w(a));
                        return self.bin(Ult, kk, a);
                    }
                }
                if let (X::Un(U::ZExt, a), X::Un(U::ZExt, c)) = (self.x(p), self.x(q)) {
                    if self.w(a) == self.w(c) {
                        return self.bin(Ult, a, c);
                    }
                }
                return self.mk(X::Bin(Ult, p, q), 1);
            }
            Ule => {
                if p == q || cp == Some(0) {
                    return self.tt();
                }
                if w == 1 {
                    let n = self.not(p);
                    return self.bin(Or, n, q);
                }
                if let Some(k) = cq {
                    if self.umax(p) <= k {
                        return self.tt();
                    }
                    if let X::Un(U::ZExt, a) = self.x(p) {
                        let kk = self.c(k, self.w(a));
                        return self.bin(Ule, a, kk);
                    }
                }
                if let Some(k) = cp {
                    if k > self.umax(q) {
                        return self.ff();
                    }
                    if k == 1 {
                        let z = self.c(0, w);
                        let x = self.bin(Eq, q, z);
                        return self.not(x);
                    }
                    if let X::Un(U::ZExt, a) = self.x(q) {
                        let kk = self.c(k, self.w(a));
                        return self.bin(Ule, kk, a);
                    }
                }
                return self.mk(X::Bin(Ule, p, q), 1);
            }
            Slt | Sle => {
                if p == q {
                    return self.c((b == Sle) as u128, 1);
                }
                // both non negative
                let h = m >> 1;
                if w > 1 && self.umax(p) <= h && self.umax(q) <= h {
                    return self.bin(if b == Slt { Ult } else { Ule }, p, q);
                }
                // x <s 0 with x non negative handled above; constant negative vs nonneg
                return self.mk(X::Bin(b, p, q), 1);
            }
            FLt | FLe | FEq => return self.mk(X::Bin(b, p, q), 1),
            _ => {}
        }
        self.mk(X::Bin(b, p, q), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(B::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (_, Some(0)) => return self.bin(B::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        // floats as reals: push inside
        if let (X::Un(U::RBits, x), X::Un(U::RBits, y)) = (self.x(a), self.x(b)) {
            let r = self.ite(c, x, y);
            return self.mk(X::Un(U::RBits, r), w);
        }
        if let X::Ite(c2, a2, _) = self.x(a) {
            if c2 == c {
                return self.ite(c, a2, b);
            }
        }
        if let X::Ite(c2, _, b2) = self.x(b) {
            if c2 == c {
                return self.ite(c, a, b2);
            }
        }
        self.mk(X::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        if self.w(e) == w {
            return e;
        }
        if let Some(v) = self.as_c(e) {
            return self.c(v, w);
        }
        if let X::Un(U::ZExt, a) = self.x(e) {
            return self.zext(a, w);
        }
        self.mk(X::Un(U::ZExt, e), w)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        if self.w(e) == w {
            return e;
        }
        if let Some(v) = self.as_c(e) {
            let v = sx(v, self.w(e)) as u128;
            return self.c(v, w);
        }
        if self.w(e) > 1 && self.umax(e) <= mask(self.w(e)) >> 1 {
            return self.zext(e, w);
        }
        self.mk(X::Un(U::SExt, e), w)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        if lo == 0 && ew == w {
            return e;
        }
        match self.x(e) {
            X::Const(v) => return self.c(v >> lo, w),
            X::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
            }
            X::Un(U::ZExt, a) => {
                let aw = self.w(a);
                if lo >= aw {
                    return self.c(0, w);
                }
                if lo + w <= aw {
                    return self.extract(a, lo, w);
                }
                if lo == 0 {
                    return self.zext(a, w);
                }
            }
            X::Un(U::SExt, a) => {
                let aw = self.w(a);
                if lo + w <= aw {
                    return self.extract(a, lo, w);
                }
                if lo == 0 {
                    return self.sext(a, w);
                }
            }
            X::Extract(a, l2) => return self.extract(a, lo + l2 as u32, w),
            X::Ite(c, a, b) if self.as_c(a).is_some() && self.as_c(b).is_some() => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return self.ite(c, x, y);
            }
            X::Bin(op @ (B::And | B::Or | B::Xor), a, b) if self.as_c(b).is_some() => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            X::Bin(op @ (B::Add | B::Sub | B::Mul), a, b) if lo == 0 && w > 1 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        if self.umax(e) >> lo == 0 {
            return self.c(0, w);
        }
        self.mk(X::Extract(e, lo as u16), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.as_c(h), self.as_c(l)) {
            return self.c((a << lw) | b, w);
        }
        if self.as_c(h) == Some(0) {
            return self.zext(l, w);
        }
        if let X::Un(U::ZExt, a) = self.x(h) {
            let c = self.concat(a, l);
            return self.zext(c, w);
        }
        let hx = match self.x(h) {
            X::Extract(a, lo) => Some((a, lo as u32)),
            _ => None,
        };
        if let Some((a, lo)) = hx {
            let le = match self.x(l) {
                X::Extract(b, l2) => Some((b, l2 as u32)),
                _ => None,
            };
            if let Some((b, l2)) = le {
                if a == b && lo == l2 + lw {
                    return self.extract(a, l2, w);
                }
            }
            if a == l && lo == lw {
                return self.extract(a, 0, w);
            }
        }
        self.mk(X::Concat(h, l), w)
    }
    pub fn un(&mut self, u: U, e: E, w: u32) -> E {
        if let U::RNeg = u {
            if let Some(f) = self.as_rc(e) {
                return self.rc(-f);
            }
            if let X::Un(U::RNeg, a) = self.x(e) {
                return a;
            }
        }
        self.mk(X::Un(u, e), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn children(x: X) -> ([E; 3], usize) {
        match x {
            X::Const(_) | X::Var(_) | X::RConst(_) | X::RVar(_) => ([0; 3], 0),
            X::Bin(_, a, b) | X::Concat(a, b) => ([a, b, 0], 2),
            X::Un(_, a) | X::Extract(a, _) => ([a, 0, 0], 1),
            X::Ite(a, b, c) => ([a, b, c], 3),
        }
    }
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) {
            return v.clone();
        }
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.vars.contains_key(&t) {
                stack.pop();
                continue;
            }
            let x = self.x(t);
            let (ch, n) = Ctx::children(x);
            let mut ready = true;
            for &c in &ch[..n] {
                if !self.vars.contains_key(&c) {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = match x {
                X::Var(v) | X::RVar(v) => std::rc::Rc::new(vec![v]),
                _ => {
                    if n == 1 {
                        self.vars[&ch[0]].clone()
                    } else if n == 0 {
                        std::rc::Rc::new(vec![])
                    } else {
                        let mut v: Vec<u32> = vec![];
                        for &c in &ch[..n] {
                            v.extend(self.vars[&c].iter());
                        }
                        v.sort();
                        v.dedup();
                        // share
                        let mut rr = None;
                        for &c in &ch[..n] {
                            if self.vars[&c].len() == v.len() {
                                rr = Some(self.vars[&c].clone());
                            }
                        }
                        rr.unwrap_or_else(|| std::rc::Rc::new(v))
                    }
                }
            };
            self.vars.insert(t, r);
            stack.pop();
        }
        self.vars[&e].clone()
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = &self.n[e as usize];
        if d == 0 {
            return format!("#{e}");
        }
        match n.x {
            X::Const(v) => format!("{v}:{}", n.w),
            X::Var(v) => format!("v{v}:{}", n.w),
            X::RConst(v) => format!("{}", f64::from_bits(v)),
            X::RVar(v) => format!("r{v}"),
            X::Bin(b, p, q) => format!("({b:?} {} {})", self.show(p, d - 1), self.show(q, d - 1)),
            X::Un(u, p) => format!("({u:?}{} {})", n.w, self.show(p, d - 1)),
            X::Extract(p, l) => format!("{}[{}+{}]", self.show(p, d - 1), l, n.w),
            X::Concat(p, q) => format!("({} ++ {})", self.show(p, d - 1), self.show(q, d - 1)),
            X::Ite(c, p, q) => format!("(if {} {} {})", self.show(c, d - 1), self.show(p, d - 1), self.show(q, d - 1)),
        }
    }
}
/// constant folding; None when undefined / not folded
pub fn fold(b: B, a: u128, c: u128, w: u32) -> Option<(u128, u32)> {
    use B::*;
    let m = mask(w);
    let r = match b {
        Add => a.wrapping_add(c) & m,
        Sub => a.wrapping_sub(c) & m,
        Mul => a.wrapping_mul(c) & m,
        UDiv => a.checked_div(c)?,
        URem => a.checked_rem(c)?,
        SDiv => {
            if c == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(c, w)) as u128) & m
        }
        SRem => {
            if c == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(c, w)) as u128) & m
        }
        Shl => {
            if c >= w as u128 {
                0
            } else {
                (a << c) & m
            }
        }
        LShr => {
            if c >= w as u128 {
                0
            } else {
                a >> c
            }
        }
        AShr => {
            let s = c.min(w as u128 - 1) as u32;
            ((sx(a, w) >> s) as u128) & m
        }
        And => a & c,
        Or => a | c,
        Xor => a ^ c,
        Eq => return Some(((a == c) as u128, 1)),
        Ult => return Some(((a < c) as u128, 1)),
        Ule => return Some(((a <= c) as u128, 1)),
        Slt => return Some(((sx(a, w) < sx(c, w)) as u128, 1)),
        Sle => return Some(((sx(a, w) <= sx(c, w)) as u128, 1)),
        FAdd | FSub | FMul | FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(c as u32));
                (match b {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(c as u64));
                (match b {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    _ => x / y,
                })
                .to_bits() as u128
            }
        }
        FLt | FLe | FEq => {
            let (x, y) = if w == 32 {
                (f32::from_bits(a as u32) as f64, f32::from_bits(c as u32) as f64)
            } else {
                (f64::from_bits(a as u64), f64::from_bits(c as u64))
            };
            return Some((
                (match b {
                    FLt => x < y,
                    FLe => x <= y,
                    _ => x == y,
                }) as u128,
                1,
            ));
        }
        _ => return None,
    };
    Some((r, w))
}
