//! z3 back end, constraint slicing, model evaluation.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_decimal_string(c: P, a: P, p: c_uint) -> *const c_char;
    fn Z3_is_algebraic_number(c: P, a: P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
}
extern "C" fn onerr(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.max(1) as i128
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Some(Rat { n: s * n / g, d: s * d / g })
    }
    pub fn from_f64(f: f64) -> Option<Rat> {
        if f == 0.0 {
            return Rat::new(0, 1);
        }
        let b = f.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        while m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        let m = if f < 0.0 { -m } else { m };
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Rat::new(m << e, 1)
        } else {
            if e < -120 {
                return None;
            }
            Rat::new(m, 1i128 << (-e))
        }
    }
    pub fn f64(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let l = (self.d / g).checked_mul(o.d)?;
        Rat::new(self.n.checked_mul(o.d / g)?.checked_add(o.n.checked_mul(self.d / g)?)?, l)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    fn cmp(self, o: Rat) -> Option<std::cmp::Ordering> {
        let g = gcd(self.d, o.d);
        Some(self.n.checked_mul(o.d / g)?.cmp(&o.n.checked_mul(self.d / g)?))
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    B(u128),
    R(Rat),
    /// value only known approximately (algebraic number)
    A(f64),
}
pub type Model = HashMap<u32, V>;
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}
pub struct Solver {
    c: P,
    bool_s: P,
    real_s: P,
    ast: Vec<P>,
    fp: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Rc<Model>>>,
    kind: HashMap<E, u8>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    pub verbose: bool,
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn pow2_str(k: u32) -> String {
    let mut d = vec![1u8];
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c)
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(onerr));
            Solver {
                c,
                bool_s: Z3_mk_bool_sort(c),
                real_s: Z3_mk_real_sort(c),
                ast: vec![],
                fp: HashMap::new(),
                cache: HashMap::new(),
                kind: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms: 60_000,
                verbose: false,
            }
        }
    }
    /// bit 0: bit vectors, 1: reals, 2: fp, 3: nonlinear
    fn kinds(&mut self, x: &Ctx, e: E) -> u8 {
        if let Some(&k) = self.kind.get(&e) {
            return k;
        }
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.kind.contains_key(&t) {
                st.pop();
                continue;
            }
            let (ch, n) = Ctx::children(x.x(t));
            let mut rdy = true;
            for &c in &ch[..n] {
                if !self.kind.contains_key(&c) {
                    rdy = false;
                    st.push(c);
                }
            }
            if !rdy {
                continue;
            }
            let mut k = 0u8;
            for &c in &ch[..n] {
                k |= self.kind[&c];
            }
            k |= match x.x(t) {
                X::Var(_) if x.w(t) > 1 => 1,
                X::RVar(_) => 2,
                X::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv | B::FLt | B::FLe | B::FEq, ..) => 4,
                X::Un(U::FNeg | U::FAbs | U::FSqrt | U::FIsNan | U::FCast | U::UToF | U::SToF | U::FToU | U::FToS | U::FRoundDown | U::FRoundUp | U::FTrunc, _) => 4,
                X::Bin(B::RMul, a, b) => {
                    if x.as_rc(a).is_none() && x.as_rc(b).is_none() {
                        8
                    } else {
                        0
                    }
                }
                X::Bin(B::RDiv, _, b) => {
                    if x.as_rc(b).is_none() {
                        8
                    } else {
                        0
                    }
                }
                _ => 0,
            };
            self.kind.insert(t, k);
            st.pop();
        }
        self.kind[&e]
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w == 1 {
                return if v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            }
            Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }
    fn rnum(&self, f: f64) -> P {
        let b = f.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        if m == 0 {
            e = 0
        }
        while m != 0 && m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        let sg = if f < 0.0 { "-" } else { "" };
        unsafe {
            if e < 0 {
                let s = format!("{sg}{m}/{}", pow2_str(-e as u32));
                Z3_mk_numeral(self.c, cs(&s).as_ptr(), self.real_s)
            } else {
                let a = Z3_mk_numeral(self.c, cs(&format!("{sg}{m}")).as_ptr(), self.real_s);
                if e == 0 {
                    return a;
                }
                let p = Z3_mk_numeral(self.c, cs(&pow2_str(e as u32)).as_ptr(), self.real_s);
                Z3_mk_mul(self.c, 2, [a, p].as_ptr())
            }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if self.ast.len() < x.n.len() {
            self.ast.resize(x.n.len(), std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if !self.ast[t as usize].is_null() {
                st.pop();
                continue;
            }
            let (ch, n) = Ctx::children(x.x(t));
            let mut rdy = true;
            for &c in &ch[..n] {
                if self.ast[c as usize].is_null() {
                    rdy = false;
                    st.push(c);
                }
            }
            if !rdy {
                continue;
            }
            let a = self.tr1(x, t);
            self.ast[t as usize] = a;
            st.pop();
        }
        self.ast[e as usize]
    }
    fn fpa(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.fp.get(&e) {
            return p;
        }
        let a = self.ast[e as usize];
        assert!(!a.is_null());
        let p = unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(x.w(e))) };
        self.fp.insert(e, p);
        p
    }
    fn tr1(&mut self, x: &Ctx, e: E) -> P {
        let w = x.w(e);
        let c = self.c;
        unsafe {
            match x.x(e) {
                X::Const(v) => self.num(v, w),
                X::RConst(f) => self.rnum(f64::from_bits(f)),
                X::Var(v) => {
                    let s = if w == 1 { self.bool_s } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("v{v}")).as_ptr()), s)
                }
                X::RVar(v) => Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("r{v}")).as_ptr()), self.real_s),
                X::Concat(a, b) => {
                    let f = |s: &Self, q: E| {
                        let p = s.ast[q as usize];
                        if x.w(q) == 1 {
                            Z3_mk_ite(c, p, Z3_mk_numeral(c, cs("1").as_ptr(), Z3_mk_bv_sort(c, 1)), Z3_mk_numeral(c, cs("0").as_ptr(), Z3_mk_bv_sort(c, 1)))
                        } else {
                            p
                        }
                    };
                    let (p, q) = (f(self, a), f(self, b));
                    Z3_mk_concat(c, p, q)
                }
                X::Extract(a, lo) => {
                    let p = self.ast[a as usize];
                    let r = Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, p);
                    if w == 1 {
                        Z3_mk_eq(c, r, Z3_mk_numeral(c, cs("1").as_ptr(), Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
                X::Ite(a, b, d) => Z3_mk_ite(c, self.ast[a as usize], self.ast[b as usize], self.ast[d as usize]),
                X::Un(u, a) => {
                    let p = self.ast[a as usize];
                    let aw = x.w(a);
                    match u {
                        U::ZExt => {
                            if aw == 1 {
                                Z3_mk_ite(c, p, self.num(1, w), self.num(0, w))
                            } else {
                                Z3_mk_zero_ext(c, w - aw, p)
                            }
                        }
                        U::SExt => {
                            if aw == 1 {
                                Z3_mk_ite(c, p, self.num(mask(w), w), self.num(0, w))
                            } else {
                                Z3_mk_sign_ext(c, w - aw, p)
                            }
                        }
                        U::RNeg => Z3_mk_unary_minus(c, p),
                        U::RBits => panic!("bit pattern of a real number used"),
                        U::FIsNan => {
                            let f = self.fpa(x, a);
                            Z3_mk_fpa_is_nan(c, f)
                        }
                        U::FToU | U::FToS => {
                            let f = self.fpa(x, a);
                            if u == U::FToU {
                                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w)
                            } else {
                                Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w)
                            }
                        }
                        _ => {
                            let r = match u {
                                U::UToF => Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), p, self.fsort(w)),
                                U::SToF => Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), p, self.fsort(w)),
                                _ => {
                                    let f = self.fpa(x, a);
                                    match u {
                                        U::FNeg => Z3_mk_fpa_neg(c, f),
                                        U::FAbs => Z3_mk_fpa_abs(c, f),
                                        U::FSqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), f),
                                        U::FCast => Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), f, self.fsort(w)),
                                        U::FRoundDown => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), f),
                                        U::FRoundUp => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), f),
                                        U::FTrunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), f),
                                        _ => unreachable!(),
                                    }
                                }
                            };
                            self.fp.insert(e, r);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                    }
                }
                X::Bin(b, a1, a2) => {
                    let (p, q) = (self.ast[a1 as usize], self.ast[a2 as usize]);
                    let bw = x.w(a1);
                    use B::*;
                    match b {
                        Add => Z3_mk_bvadd(c, p, q),
                        Sub => Z3_mk_bvsub(c, p, q),
                        Mul => Z3_mk_bvmul(c, p, q),
                        UDiv => Z3_mk_bvudiv(c, p, q),
                        SDiv => Z3_mk_bvsdiv(c, p, q),
                        URem => Z3_mk_bvurem(c, p, q),
                        SRem => Z3_mk_bvsrem(c, p, q),
                        Shl => Z3_mk_bvshl(c, p, q),
                        LShr => Z3_mk_bvlshr(c, p, q),
                        AShr => Z3_mk_bvashr(c, p, q),
                        And if bw == 1 => Z3_mk_and(c, 2, [p, q].as_ptr()),
                        Or if bw == 1 => Z3_mk_or(c, 2, [p, q].as_ptr()),
                        Xor if bw == 1 => {
                            if x.as_c(a2) == Some(1) {
                                Z3_mk_not(c, p)
                            } else {
                                Z3_mk_xor(c, p, q)
                            }
                        }
                        And => Z3_mk_bvand(c, p, q),
                        Or => Z3_mk_bvor(c, p, q),
                        Xor => Z3_mk_bvxor(c, p, q),
                        Eq | REq => Z3_mk_eq(c, p, q),
                        Ult => Z3_mk_bvult(c, p, q),
                        Ule => Z3_mk_bvule(c, p, q),
                        Slt => Z3_mk_bvslt(c, p, q),
                        Sle => Z3_mk_bvsle(c, p, q),
                        RAdd => Z3_mk_add(c, 2, [p, q].as_ptr()),
                        RSub => Z3_mk_sub(c, 2, [p, q].as_ptr()),
                        RMul => Z3_mk_mul(c, 2, [p, q].as_ptr()),
                        RDiv => Z3_mk_div(c, p, q),
                        RLt => Z3_mk_lt(c, p, q),
                        RLe => Z3_mk_le(c, p, q),
                        FLt | FLe | FEq => {
                            let (f, g) = (self.fpa(x, a1), self.fpa(x, a2));
                            match b {
                                FLt => Z3_mk_fpa_lt(c, f, g),
                                FLe => Z3_mk_fpa_leq(c, f, g),
                                _ => Z3_mk_fpa_eq(c, f, g),
                            }
                        }
                        FAdd | FSub | FMul | FDiv => {
                            let (f, g) = (self.fpa(x, a1), self.fpa(x, a2));
                            let rm = Z3_mk_fpa_rne(c);
                            let r = match b {
                                FAdd => Z3_mk_fpa_add(c, rm, f, g),
                                FSub => Z3_mk_fpa_sub(c, rm, f, g),
                                FMul => Z3_mk_fpa_mul(c, rm, f, g),
                                _ => Z3_mk_fpa_div(c, rm, f, g),
                            };
                            self.fp.insert(e, r);
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                    }
                }
            }
        }
    }
    /// constraints of pc connected with e through shared variables
    pub fn slice(x: &mut Ctx, pc: &[E], e: E) -> Vec<E> {
        let mut vs: std::collections::HashSet<u32> = x.vars(e).iter().copied().collect();
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = pc.iter().map(|&p| (p, x.vars(p))).collect();
        if !x.defs.is_empty() && rest.iter().any(|(p, _)| x.defs.contains_key(p)) {
            // definitions of variables that nothing else mentions do not restrict anything
            let mut used = vs.clone();
            let mut defs = vec![];
            for (p, v) in &rest {
                match x.defs.get(p) {
                    Some(&d) => defs.push((*p, d, v.clone())),
                    None => used.extend(v.iter().copied()),
                }
            }
            loop {
                let n = defs.len();
                defs.retain(|(_, d, v)| {
                    if used.contains(d) {
                        used.extend(v.iter().copied());
                        false
                    } else {
                        true
                    }
                });
                if defs.len() == n {
                    break;
                }
            }
            let dead: std::collections::HashSet<E> = defs.iter().map(|d| d.0).collect();
            rest.retain(|(p, _)| !dead.contains(p));
        }
        let mut out = vec![];
        loop {
            let mut ch = false;
            rest.retain(|(p, v)| {
                if v.iter().any(|k| vs.contains(k)) {
                    vs.extend(v.iter().copied());
                    out.push(*p);
                    ch = true;
                    false
                } else {
                    true
                }
            });
            if !ch {
                break;
            }
        }
        out
    }
    /// satisfiability of slice(pc) and e
    pub fn check(&mut self, x: &mut Ctx, pc: &[E], e: E) -> Res {
        match x.as_c(e) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(Model::new()),
            None => {}
        }
        let mut cs_ = Solver::slice(x, pc, e);
        cs_.push(e);
        cs_.sort();
        cs_.dedup();
        self.check_set(x, cs_)
    }
    pub fn check_set(&mut self, x: &mut Ctx, cs_: Vec<E>) -> Res {
        if let Some(r) = self.cache.get(&cs_) {
            self.cached += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat((**m).clone()),
            };
        }
        let t0 = Instant::now();
        let r = self.solve(x, &cs_);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.queries += 1;
        if dt > self.max_time {
            self.max_time = dt
        }
        match r {
            Res::Sat(m) => {
                self.sat += 1;
                let m = Rc::new(m);
                self.cache.insert(cs_, Some(m.clone()));
                Res::Sat((*m).clone())
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(cs_, None);
                Res::Unsat
            }
            Res::Unknown => {
                self.unknown += 1;
                Res::Unknown
            }
        }
    }
    fn solve(&mut self, x: &mut Ctx, cs_: &[E]) -> Res {
        let mut k = 0;
        for &e in cs_ {
            k |= self.kinds(x, e);
        }
        let logic = match k {
            0 | 1 => "QF_BV",
            2 => "QF_LRA",
            10 => "QF_NRA",
            k if k & 4 != 0 && k & 2 == 0 => "QF_FPBV",
            _ => "",
        };
        let asts: Vec<P> = cs_.iter().map(|&e| self.tr(x, e)).collect();
        let mut vars: Vec<u32> = vec![];
        for &e in cs_ {
            vars.extend(x.vars(e).iter());
        }
        vars.sort();
        vars.dedup();
        for attempt in 0..2 {
            unsafe {
                let s = if logic.is_empty() || attempt == 1 { Z3_mk_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, cs(logic).as_ptr())) };
                Z3_solver_inc_ref(self.c, s);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), self.timeout_ms);
                Z3_solver_set_params(self.c, s, p);
                for &a in &asts {
                    Z3_solver_assert(self.c, s, a);
                }
                let r = Z3_solver_check(self.c, s);
                if self.verbose {
                    let st = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
                    eprintln!("--- query {logic} -> {r}\n{st}");
                }
                if r == -1 {
                    Z3_solver_dec_ref(self.c, s);
                    return Res::Unsat;
                }
                if r == 0 {
                    Z3_solver_dec_ref(self.c, s);
                    continue;
                }
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = Model::new();
                for &v in &vars {
                    let e = self.var_expr(x, v);
                    let a = self.tr(x, e);
                    let mut val: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, a, true, &mut val) {
                        continue;
                    }
                    let w = x.w(e);
                    let vv = if w == 1 {
                        V::B((Z3_get_bool_value(self.c, val) == 1) as u128)
                    } else if w == 0 {
                        if Z3_is_algebraic_number(self.c, val) {
                            let d = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, val, 20)).to_string_lossy().replace('?', "");
                            V::A(d.parse().unwrap_or(0.0))
                        } else {
                            let d = CStr::from_ptr(Z3_get_numeral_string(self.c, val)).to_string_lossy().to_string();
                            let (a, b) = match d.split_once('/') {
                                Some((a, b)) => (a.to_string(), b.to_string()),
                                None => (d.clone(), "1".into()),
                            };
                            match (a.parse::<i128>(), b.parse::<i128>()) {
                                (Ok(a), Ok(b)) => V::R(Rat::new(a, b).unwrap()),
                                _ => V::A(a.parse::<f64>().unwrap_or(0.0) / b.parse::<f64>().unwrap_or(1.0)),
                            }
                        }
                    } else {
                        let d = CStr::from_ptr(Z3_get_numeral_string(self.c, val)).to_string_lossy().to_string();
                        V::B(d.parse().unwrap())
                    };
                    out.insert(v, vv);
                }
                Z3_model_dec_ref(self.c, m);
                Z3_solver_dec_ref(self.c, s);
                return Res::Sat(out);
            }
        }
        Res::Unknown
    }
    fn var_expr(&self, x: &mut Ctx, v: u32) -> E {
        x.var_e[v as usize]
    }
}

/// exact evaluation under a model (missing variables are zero)
pub fn eval(x: &Ctx, m: &Model, e: E, memo: &mut HashMap<E, Option<V>>) -> Option<V> {
    if let X::Const(v) = x.x(e) {
        return Some(V::B(v));
    }
    let mut st = vec![e];
    while let Some(&t) = st.last() {
        if memo.contains_key(&t) {
            st.pop();
            continue;
        }
        let xx = x.x(t);
        let (ch, n) = Ctx::children(xx);
        // ite: only the chosen branch
        if let X::Ite(c, a, b) = xx {
            match memo.get(&c) {
                None => {
                    st.push(c);
                    continue;
                }
                Some(None) => {
                    memo.insert(t, None);
                    st.pop();
                    continue;
                }
                Some(Some(V::B(v))) => {
                    let k = if *v == 1 { a } else { b };
                    match memo.get(&k) {
                        None => {
                            st.push(k);
                            continue;
                        }
                        Some(r) => {
                            let r = *r;
                            memo.insert(t, r);
                            st.pop();
                            continue;
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        let mut rdy = true;
        for &c in &ch[..n] {
            if !memo.contains_key(&c) {
                rdy = false;
                st.push(c);
            }
        }
        if !rdy {
            continue;
        }
        let r = eval1(x, m, t, memo);
        memo.insert(t, r);
        st.pop();
    }
    memo[&e]
}
fn eval1(x: &Ctx, m: &Model, t: E, memo: &HashMap<E, Option<V>>) -> Option<V> {
    let w = x.w(t);
    let bv = |e: E| -> Option<u128> {
        match memo[&e]? {
            V::B(v) => Some(v),
            _ => None,
        }
    };
    let rv = |e: E| -> Option<Rat> {
        match memo[&e]? {
            V::R(v) => Some(v),
            _ => None,
        }
    };
    Some(match x.x(t) {
        X::Const(v) => V::B(v),
        X::Var(v) => m.get(&v).copied().unwrap_or(V::B(0)),
        X::RVar(v) => match m.get(&v) {
            Some(V::R(r)) => V::R(*r),
            Some(_) => return None,
            None => V::R(Rat { n: 0, d: 1 }),
        },
        X::RConst(f) => V::R(Rat::from_f64(f64::from_bits(f))?),
        X::Concat(a, b) => V::B((bv(a)? << x.w(b)) | bv(b)?),
        X::Extract(a, lo) => V::B((bv(a)? >> lo) & mask(w)),
        X::Ite(..) => unreachable!(),
        X::Un(u, a) => match u {
            U::ZExt => V::B(bv(a)?),
            U::SExt => V::B(sx(bv(a)?, x.w(a)) as u128 & mask(w)),
            U::RNeg => V::R(rv(a)?.neg()),
            U::RBits => return None,
            _ => {
                let v = bv(a)?;
                let aw = x.w(a);
                let f = if aw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                let pack = |f: f64| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                match u {
                    U::FNeg => V::B(v ^ (1 << (aw - 1))),
                    U::FAbs => V::B(v & !(1 << (aw - 1))),
                    U::FSqrt => V::B(if aw == 32 { f32::from_bits(v as u32).sqrt().to_bits() as u128 } else { f.sqrt().to_bits() as u128 }),
                    U::FIsNan => V::B(f.is_nan() as u128),
                    U::FCast => V::B(pack(f)),
                    U::FRoundDown => V::B(pack(f.floor())),
                    U::FRoundUp => V::B(pack(f.ceil())),
                    U::FTrunc => V::B(pack(f.trunc())),
                    U::UToF => V::B(if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 }),
                    U::SToF => {
                        let s = sx(v, aw);
                        V::B(if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 })
                    }
                    U::FToU => {
                        if f.is_nan() || f <= -1.0 || f >= 2f64.powi(w as i32) {
                            return None;
                        }
                        V::B(f as u128)
                    }
                    U::FToS => {
                        if f.is_nan() || f.abs() >= 2f64.powi(w as i32 - 1) {
                            return None;
                        }
                        V::B((f as i128) as u128 & mask(w))
                    }
                    _ => unreachable!(),
                }
            }
        },
        X::Bin(b, p, q) => {
            use B::*;
            match b {
                RAdd => V::R(rv(p)?.add(rv(q)?)?),
                RSub => V::R(rv(p)?.add(rv(q)?.neg())?),
                RMul => V::R(rv(p)?.mul(rv(q)?)?),
                RDiv => {
                    let d = rv(q)?;
                    V::R(rv(p)?.mul(Rat::new(d.d, d.n)?)?)
                }
                RLt => V::B((rv(p)?.cmp(rv(q)?)? == std::cmp::Ordering::Less) as u128),
                RLe => V::B((rv(p)?.cmp(rv(q)?)? != std::cmp::Ordering::Greater) as u128),
                REq => V::B((rv(p)?.cmp(rv(q)?)? == std::cmp::Ordering::Equal) as u128),
                And if w == 1 => match (memo[&p], memo[&q]) {
                    (Some(V::B(0)), _) | (_, Some(V::B(0))) => V::B(0),
                    _ => V::B(bv(p)? & bv(q)?),
                },
                Or if w == 1 => match (memo[&p], memo[&q]) {
                    (Some(V::B(1)), _) | (_, Some(V::B(1))) => V::B(1),
                    _ => V::B(bv(p)? | bv(q)?),
                },
                UDiv if bv(q)? == 0 => V::B(mask(w)),
                URem if bv(q)? == 0 => V::B(bv(p)?),
                _ => {
                    let (v, _) = fold(b, bv(p)?, bv(q)?, x.w(p))?;
                    V::B(v)
                }
            }
        }
    })
}
