//! Normal form of real terms: a polynomial over a product of factors. Used to recognise terms that are constant
//! as rational functions before the solver is asked (anything that is not a rational operation counts as a variable).
//! Divisors are non-zero on the current path: the executor forks on zero divisors before it builds a division.
use crate::expr::*;
use crate::solver::Rat;
use std::collections::{BTreeMap, HashMap};

type Mono = Vec<(E, u32)>;
type Poly = BTreeMap<Mono, Rat>;
const MAX: usize = 4000;
#[derive(Clone)]
pub struct Frac {
    n: Poly,
    /// factors of the denominator
    d: Vec<(Poly2, u32)>,
}
type Poly2 = Vec<(Mono, (i128, i128))>;

thread_local! {
    /// variables whose square is a known constant
    static SQUARES: std::cell::RefCell<HashMap<E, Rat>> = Default::default();
}
pub fn square(s: E, q: Rat) {
    SQUARES.with(|m| m.borrow_mut().insert(s, q));
}
fn reduce(m: Mono, c: Rat) -> Option<(Mono, Rat)> {
    SQUARES.with(|q| {
        let q = q.borrow();
        if q.is_empty() {
            return Some((m, c));
        }
        let mut c = c;
        let mut o = Vec::new();
        for (v, k) in m {
            match q.get(&v) {
                Some(x) => {
                    for _ in 0..k / 2 {
                        c = c.mul(*x)?;
                    }
                    if k % 2 == 1 {
                        o.push((v, 1));
                    }
                }
                None => o.push((v, k)),
            }
        }
        Some((o, c))
    })
}
fn key(p: &Poly) -> Poly2 {
    p.iter().map(|(m, c)| (m.clone(), (c.n, c.d))).collect()
}
fn unkey(p: &Poly2) -> Poly {
    p.iter().map(|(m, c)| (m.clone(), Rat { n: c.0, d: c.1 })).collect()
}
fn cst(r: Rat) -> Poly {
    let mut p = Poly::new();
    if r.n != 0 {
        p.insert(vec![], r);
    }
    p
}
fn mm(a: &Mono, b: &Mono) -> Mono {
    let (mut i, mut j) = (0, 0);
    let mut o = Vec::new();
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            o.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            o.push(b[j]);
            j += 1;
        } else {
            o.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    o
}
fn add(a: &Poly, b: &Poly, neg: bool) -> Option<Poly> {
    let mut o = a.clone();
    for (m, c) in b {
        let c = if neg { c.neg() } else { *c };
        match o.get(m).copied() {
            Some(x) => {
                let s = x.add(c)?;
                if s.n == 0 {
                    o.remove(m);
                } else {
                    o.insert(m.clone(), s);
                }
            }
            None => {
                o.insert(m.clone(), c);
            }
        }
    }
    (o.len() <= MAX).then_some(o)
}
fn mul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 200_000 {
        return None;
    }
    let mut o = Poly::new();
    for (ma, ca) in a {
        for (mb, cb) in b {
            let (m, c) = reduce(mm(ma, mb), ca.mul(*cb)?)?;
            match o.get(&m).copied() {
                Some(x) => {
                    let s = x.add(c)?;
                    if s.n == 0 {
                        o.remove(&m);
                    } else {
                        o.insert(m, s);
                    }
                }
                None => {
                    o.insert(m, c);
                }
            }
        }
        if o.len() > MAX {
            return None;
        }
    }
    Some(o)
}
fn pow(p: &Poly, k: u32) -> Option<Poly> {
    let mut o = cst(Rat { n: 1, d: 1 });
    for _ in 0..k {
        o = mul(&o, p)?;
    }
    Some(o)
}
fn sum(a: &Frac, b: &Frac, neg: bool) -> Option<Frac> {
    // least common multiple of the factor lists
    let mut d = a.d.clone();
    for (f, k) in &b.d {
        match d.iter_mut().find(|x| x.0 == *f) {
            Some(x) => x.1 = x.1.max(*k),
            None => d.push((f.clone(), *k)),
        }
    }
    let lift = |x: &Frac| -> Option<Poly> {
        let mut n = x.n.clone();
        for (f, k) in &d {
            let have = x.d.iter().find(|y| y.0 == *f).map_or(0, |y| y.1);
            if *k > have {
                n = mul(&n, &pow(&unkey(f), k - have)?)?;
            }
        }
        Some(n)
    };
    let n = add(&lift(a)?, &lift(b)?, neg)?;
    Some(Frac { n, d })
}
fn prod(a: &Frac, b: &Frac) -> Option<Frac> {
    let mut d = a.d.clone();
    for (f, k) in &b.d {
        match d.iter_mut().find(|x| x.0 == *f) {
            Some(x) => x.1 += *k,
            None => d.push((f.clone(), *k)),
        }
    }
    Some(Frac { n: mul(&a.n, &b.n)?, d })
}
fn inverse(a: &Frac) -> Option<Frac> {
    if a.n.is_empty() {
        return None;
    }
    let mut n = cst(Rat { n: 1, d: 1 });
    for (f, k) in &a.d {
        n = mul(&n, &pow(&unkey(f), *k)?)?;
    }
    let mut d = Vec::new();
    let mut p = a.n.clone();
    // constant factor
    let c = *p.values().next().unwrap();
    let i = Rat::new(c.d, c.n)?;
    n = mul(&n, &cst(i))?;
    p = mul(&p, &cst(i))?;
    // common variables
    let mut common: Mono = p.keys().next().unwrap().clone();
    for m in p.keys() {
        common = common.iter().filter_map(|(v, k)| m.iter().find(|x| x.0 == *v).map(|x| (*v, (*k).min(x.1)))).collect();
    }
    if !common.is_empty() {
        p = p
            .into_iter()
            .map(|(m, c)| (m.into_iter().map(|(v, k)| (v, k - common.iter().find(|x| x.0 == v).map_or(0, |x| x.1))).filter(|x| x.1 > 0).collect(), c))
            .collect();
        for (v, k) in &common {
            let mut f = Poly::new();
            f.insert(vec![(*v, 1)], Rat { n: 1, d: 1 });
            d.push((key(&f), *k));
        }
    }
    if !(p.len() == 1 && p.keys().next().unwrap().is_empty()) {
        d.push((key(&p), 1));
    }
    Some(Frac { n, d })
}
pub fn frac(x: &Ctx, e: E, memo: &mut HashMap<E, Option<Frac>>) -> Option<Frac> {
    if let Some(r) = memo.get(&e) {
        return r.clone();
    }
    let r = match x.x(e) {
        X::RConst(b) => Rat::from_f64(f64::from_bits(b)).map(|r| Frac { n: cst(r), d: vec![] }),
        X::Bin(o @ (B::RAdd | B::RSub | B::RMul | B::RDiv), p, q) => {
            let a = frac(x, p, memo);
            let b = frac(x, q, memo);
            match (a, b) {
                (Some(a), Some(b)) => match o {
                    B::RAdd => sum(&a, &b, false),
                    B::RSub => sum(&a, &b, true),
                    B::RMul => prod(&a, &b),
                    _ => inverse(&b).and_then(|i| prod(&a, &i)),
                },
                _ => None,
            }
        }
        X::Un(U::RNeg, p) => frac(x, p, memo).and_then(|a| prod(&a, &Frac { n: cst(Rat { n: -1, d: 1 }), d: vec![] })),
        _ => {
            let mut n = Poly::new();
            n.insert(vec![(e, 1)], Rat { n: 1, d: 1 });
            Some(Frac { n, d: vec![] })
        }
    };
    memo.insert(e, r.clone());
    r
}
/// the constant that p - q is equal to, if it is one
fn difference(x: &Ctx, p: E, q: E, memo: &mut HashMap<E, Option<Frac>>) -> Option<Rat> {
    let a = frac(x, p, memo)?;
    let b = frac(x, q, memo)?;
    let f = sum(&a, &b, true)?;
    if f.n.is_empty() {
        return Rat::new(0, 1);
    }
    let mut d = cst(Rat { n: 1, d: 1 });
    for (g, k) in &f.d {
        d = mul(&d, &pow(&unkey(g), *k)?)?;
    }
    let (m, c) = f.n.iter().next()?;
    let e = d.get(m)?;
    let k = c.mul(Rat::new(e.d, e.n)?)?;
    add(&f.n, &mul(&d, &cst(k))?, true)?.is_empty().then_some(k)
}
/// replaces comparisons of reals whose difference is constant
pub fn fold_bool(x: &mut Ctx, e: E, memo: &mut HashMap<E, Option<Frac>>) -> E {
    if x.w(e) != 1 {
        return e;
    }
    match x.x(e) {
        X::Bin(o @ (B::RLt | B::RLe | B::REq), p, q) => match difference(x, p, q, memo) {
            Some(k) => {
                let v = match o {
                    B::RLt => k.n < 0,
                    B::RLe => k.n <= 0,
                    _ => k.n == 0,
                };
                if v { x.tt() } else { x.ff() }
            }
            None => e,
        },
        X::Bin(o @ (B::And | B::Or | B::Xor | B::Eq), p, q) if x.w(p) == 1 => {
            let a = fold_bool(x, p, memo);
            let b = fold_bool(x, q, memo);
            if a == p && b == q { e } else { x.bin(o, a, b) }
        }
        _ => e,
    }
}
