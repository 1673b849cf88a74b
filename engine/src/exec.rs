//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{self, Model, Res, Solver, V};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Agg(Rc<Vec<Val>>),
}
use Val::*;
pub enum Ctl {
    /// path ends here
    End,
    Unsup(String),
}
pub type R<T> = Result<T, Ctl>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Ctl::Unsup(s.into()))
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
}
const CH: usize = 128;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Rc<Chunk>>,
    pub nobj: u32,
    pub free: Vec<u32>,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u128>>,
    pub model: Option<Rc<Model>>,
    /// inputs in call order: (kind, expression)
    pub log: Vec<(u8, E)>,
    pub notes: Vec<(u32, u64)>,
    pub steps: u64,
    pub sqrt: Rc<HashMap<(u8, E, E), E>>,
    pub flags: u32,
    pub grid: u32,
    pub roots: Vec<E>,
    pub fs: Rc<Fs>,
}
/// files of the path: content and open descriptors (file, position)
#[derive(Clone, Default)]
pub struct Fs {
    files: Vec<(Vec<u8>, Vec<Val>)>,
    fds: Vec<(usize, usize)>,
    errno: u64,
}
#[derive(Clone)]
pub struct Violation {
    pub tag: u32,
    pub what: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(u8, f64, u64)>,
    pub notes: Vec<(u32, u64)>,
}
type HookFn = fn(&mut Vm, &[Val], u32) -> R<Val>;
pub const FNBASE: u64 = 0x4000_0000_0000_0000;

pub struct Vm {
    pub m: Module,
    pub x: Ctx,
    pub s: Solver,
    pub st: State,
    pub work: Vec<State>,
    pub real: bool,
    pub symhash: bool,
    pub hash_seed: u64,
    hooks: Vec<Option<(HookFn, u32)>>,
    is_hash: Vec<bool>,
    sym_addr: Vec<u64>,
    ftypes: HashMap<u64, E>,
    pub executed: BTreeSet<u32>,
    pub covers: BTreeMap<u32, u64>,
    pub violations: Vec<Violation>,
    pub paths: u64,
    pub ended: u64,
    pub forks: u64,
    pub checks: u64,
    pub unknown_checks: u64,
    pub unknown_branches: u64,
    pub unsup: BTreeMap<String, u64>,
    pub total_steps: u64,
    pub max_steps: u64,
    pub deadline: Option<Instant>,
    pub timed_out: bool,
    pub max_viol: usize,
    pub seen_tags: BTreeSet<String>,
    pub fracs: HashMap<E, Option<crate::poly::Frac>>,
    pub last_notes: Vec<(u32, u64)>,
    pub inputs: HashMap<(usize, u8, u32), E>,
    pub trace_calls: bool,
    pub itrace: bool,
    cur_retw: u32,
    pub sample: Option<Vec<(u8, f64, u64)>>,
}

fn ok_hook(_: &mut Vm, _: &[Val], p: u32) -> R<Val> {
    Ok(C(p as u64))
}

impl Vm {
    pub fn new(m: Module) -> Vm {
        let nf = m.funcs.len();
        let mut vm = Vm {
            m,
            x: Ctx::default(),
            s: Solver::new(),
            st: State {
                frames: vec![],
                mem: vec![],
                nobj: 1,
                free: vec![],
                pc: vec![],
                known: Rc::new(HashMap::new()),
                model: Some(Rc::new(HashMap::new())),
                log: vec![],
                notes: vec![],
                steps: 0,
                sqrt: Rc::new(HashMap::new()),
                flags: 0,
                grid: 0,
                roots: vec![],
                fs: Rc::new(Fs::default()),
            },
            work: vec![],
            real: false,
            symhash: false,
            hash_seed: 0x9e3779b97f4a7c15,
            hooks: vec![None; nf],
            is_hash: vec![false; nf],
            sym_addr: vec![],
            ftypes: HashMap::new(),
            executed: BTreeSet::new(),
            covers: BTreeMap::new(),
            violations: vec![],
            paths: 0,
            ended: 0,
            forks: 0,
            checks: 0,
            unknown_checks: 0,
            unknown_branches: 0,
            unsup: BTreeMap::new(),
            total_steps: 0,
            max_steps: 400_000_000,
            deadline: None,
            timed_out: false,
            max_viol: 3,
            seen_tags: BTreeSet::new(),
            fracs: HashMap::new(),
            last_notes: vec![],
            inputs: HashMap::new(),
            trace_calls: false,
            itrace: false,
            cur_retw: 0,
            sample: None,
        };
        vm.init();
        vm
    }
    fn init(&mut self) {
        let _ = &self.ftypes;
        // global ids
        let ng = self.m.globals.len();
        for g in 0..ng {
            let id = self.new_obj(self.m.globals[g].size as usize);
            debug_assert_eq!(id as usize, g + 1);
        }
        self.fill_syms();
        for g in 0..ng {
            let k = std::mem::replace(&mut self.m.globals[g].init, K::Zero);
            let t = self.m.globals[g].ty;
            let addr = ((g as u64) + 1) << 32;
            self.init_mem(addr, &k, t);
        }
        for i in 0..self.m.funcs.len() {
            let h = self.find_hook(i);
            self.hooks[i] = h;
            let p = &self.m.funcs[i].pretty;
            self.is_hash[i] = p.contains("BuildHasher::hash_one") || p.ends_with("::make_hash");
        }
    }
    fn fill_syms(&mut self) {
        for i in self.sym_addr.len()..self.m.sym_list.len() {
            let a = match self.m.sym_list[i].1 {
                Some(Sym::Func(f)) => FNBASE + f as u64 * 16,
                Some(Sym::Global(g)) => ((g as u64) + 1) << 32,
                None => 0,
            };
            self.sym_addr.push(a);
        }
    }
    fn init_mem(&mut self, addr: u64, k: &K, t: Ty) {
        let tk = self.m.types.list[t as usize].clone();
        match k {
            K::Zero | K::Undef => {}
            K::Bad => {}
            K::Bytes(b) => {
                let b = b.clone();
                self.wbytes(addr, &b);
            }
            K::Int(v) => {
                let sz = self.m.types.size(t) as usize;
                let b = v.to_le_bytes();
                self.wbytes(addr, &b[..sz.min(16)]);
            }
            K::Sym(s, o) => {
                let a = self.sym_addr[*s as usize].wrapping_add(*o as u64);
                self.wbytes(addr, &a.to_le_bytes());
            }
            K::Agg(v) => match tk {
                TyK::Struct(f, _) => {
                    for (i, kk) in v.iter().enumerate() {
                        let (o, _) = self.m.types.field_off(t, i);
                        self.init_mem(addr + o, kk, f[i]);
                    }
                }
                TyK::Arr(_, e) | TyK::Vec(_, e) => {
                    let sz = self.m.types.size(e);
                    for (i, kk) in v.iter().enumerate() {
                        self.init_mem(addr + sz * i as u64, kk, e);
                    }
                }
                _ => {}
            },
        }
    }
    // ---- memory
    pub fn new_obj(&mut self, size: usize) -> u32 {
        let o = Rc::new(Obj { data: vec![0; size], sym: None });
        let id = match self.st.free.pop() {
            Some(i) => i,
            None => {
                let i = self.st.nobj;
                self.st.nobj += 1;
                i
            }
        };
        let (c, k) = (id as usize / CH, id as usize % CH);
        while self.st.mem.len() <= c {
            self.st.mem.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.st.mem[c])[k] = Some(o);
        id
    }
    fn free_obj(&mut self, id: u32) {
        let (c, k) = (id as usize / CH, id as usize % CH);
        if let Some(ch) = self.st.mem.get_mut(c) {
            let ch = Rc::make_mut(ch);
            if ch[k].is_some() {
                ch[k] = None;
                self.st.free.push(id);
            }
        }
    }
    #[inline]
    fn obj(&self, id: u32) -> Option<&Obj> {
        let (c, k) = (id as usize / CH, id as usize % CH);
        self.st.mem.get(c)?.get(k)?.as_deref()
    }
    #[inline]
    fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let (c, k) = (id as usize / CH, id as usize % CH);
        let ch = Rc::make_mut(self.st.mem.get_mut(c)?);
        Some(Rc::make_mut(ch.get_mut(k)?.as_mut()?))
    }
    fn wbytes(&mut self, addr: u64, b: &[u8]) {
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(o) = self.obj_mut((addr >> 32) as u32) {
            if off + b.len() <= o.data.len() {
                o.data[off..off + b.len()].copy_from_slice(b);
            }
        }
    }
    pub fn rbytes(&self, addr: u64, n: usize) -> Option<Vec<u8>> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj((addr >> 32) as u32)?;
        if off + n <= o.data.len() {
            Some(o.data[off..off + n].to_vec())
        } else {
            None
        }
    }
    fn bad_addr<T>(&self, what: &str, addr: u64, n: usize) -> R<T> {
        unsup(format!("memory fault: {what} {n} bytes at {:#x} in {}", addr, self.fname()))
    }
    pub fn fname(&self) -> String {
        self.st.frames.last().map_or("?".into(), |f| self.m.funcs[f.f as usize].pretty.clone())
    }
    fn load_int(&mut self, addr: u64, n: usize, w: u32) -> R<Val> {
        if n == 0 {
            return Ok(C(0));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = match self.obj((addr >> 32) as u32) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return self.bad_addr("load", addr, n),
        };
        if let Some(s) = &o.sym {
            if s.range(off as u32..(off + n) as u32).next().is_some() {
                let mut parts: Vec<Result<(E, u8), u8>> = Vec::with_capacity(n);
                for i in 0..n {
                    match s.get(&((off + i) as u32)) {
                        Some(&p) => parts.push(Ok(p)),
                        None => parts.push(Err(o.data[off + i])),
                    }
                }
                let x = &mut self.x;
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let mut j = i + 1;
                    let piece = match parts[i] {
                        Ok((e, k)) => {
                            while j < n && parts[j] == Ok((e, k + (j - i) as u8)) {
                                j += 1
                            }
                            x.extract(e, k as u32 * 8, (j - i) as u32 * 8)
                        }
                        Err(b) => {
                            let mut v = b as u128;
                            while j < n {
                                if let Err(b2) = parts[j] {
                                    v |= (b2 as u128) << (8 * (j - i));
                                    j += 1
                                } else {
                                    break;
                                }
                            }
                            x.c(v, (j - i) as u32 * 8)
                        }
                    };
                    acc = Some(match acc {
                        None => piece,
                        Some(a) => x.concat(piece, a),
                    });
                    i = j;
                }
                let e = acc.unwrap();
                let ew = self.x.w(e);
                let e = if ew > w { self.x.extract(e, 0, w) } else { e };
                return Ok(self.norm(e));
            }
        }
        let d = &o.data[off..off + n];
        if n <= 8 {
            let v = match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                1 => d[0] as u64,
                _ => {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(d);
                    u64::from_le_bytes(b)
                }
            };
            let v = if w < 64 { v & ((1u64 << w) - 1) } else { v };
            Ok(C(v))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            let e = self.x.c(u128::from_le_bytes(b), w);
            Ok(S(e))
        }
    }
    /// constant expressions of at most 64 bits become C
    #[inline]
    pub fn norm(&self, e: E) -> Val {
        if let Some(v) = self.x.as_c(e) {
            if self.x.w(e) <= 64 {
                return C(v as u64);
            }
        }
        S(e)
    }
    fn store_int(&mut self, addr: u64, n: usize, v: &Val) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            C(c) => {
                let b = c.to_le_bytes();
                match self.obj_mut((addr >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() => {
                        if n <= 8 {
                            o.data[off..off + n].copy_from_slice(&b[..n]);
                        } else {
                            o.data[off..off + 8].copy_from_slice(&b);
                            o.data[off + 8..off + n].fill(0);
                        }
                        clear_sym(o, off, n);
                        Ok(())
                    }
                    _ => self.bad_addr("store", addr, n),
                }
            }
            S(e) => {
                let e = *e;
                if let Some(c) = self.x.as_c(e) {
                    let b = c.to_le_bytes();
                    match self.obj_mut((addr >> 32) as u32) {
                        Some(o) if off + n <= o.data.len() => {
                            o.data[off..off + n].copy_from_slice(&b[..n]);
                            clear_sym(o, off, n);
                            return Ok(());
                        }
                        _ => return self.bad_addr("store", addr, n),
                    }
                }
                let w = n as u32 * 8;
                let e = self.x.zext(e, w);
                match self.obj_mut((addr >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() => {
                        let s = o.sym.get_or_insert_with(Default::default);
                        for i in 0..n {
                            s.insert((off + i) as u32, (e, i as u8));
                        }
                        Ok(())
                    }
                    _ => self.bad_addr("store", addr, n),
                }
            }
            Agg(_) => unsup("store aggregate as int"),
        }
    }
    fn load(&mut self, addr: u64, t: Ty) -> R<Val> {
        match self.m.types.list[t as usize] {
            TyK::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                self.load_int(addr, n, w)
            }
            TyK::F32 => self.load_int(addr, 4, 32),
            TyK::F64 | TyK::Ptr => self.load_int(addr, 8, 64),
            TyK::Struct(..) => {
                let n = match &self.m.types.list[t as usize] {
                    TyK::Struct(f, _) => f.len(),
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let (o, ft) = self.m.types.field_off(t, i);
                    v.push(self.load(addr + o, ft)?);
                }
                Ok(Agg(Rc::new(v)))
            }
            TyK::Arr(n, e) => {
                let sz = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(addr + i * sz, e)?);
                }
                Ok(Agg(Rc::new(v)))
            }
            TyK::Vec(n, e) => {
                if let TyK::Int(1) = self.m.types.list[e as usize] {
                    let nb = (n as usize + 7) / 8;
                    let v = self.load_int(addr, nb, n)?;
                    let mut o = vec![];
                    for i in 0..n {
                        o.push(match v {
                            C(c) => C(c >> i & 1),
                            S(ex) => {
                                let b = self.x.extract(ex, i, 1);
                                self.norm(b)
                            }
                            _ => C(0),
                        });
                    }
                    return Ok(Agg(Rc::new(o)));
                }
                let sz = self.m.types.size(e);
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load(addr + i * sz, e)?);
                }
                Ok(Agg(Rc::new(v)))
            }
            _ => unsup("load type"),
        }
    }
    fn store(&mut self, addr: u64, t: Ty, v: &Val) -> R<()> {
        match self.m.types.list[t as usize] {
            TyK::Int(w) => self.store_int(addr, ((w + 7) / 8) as usize, v),
            TyK::F32 => self.store_int(addr, 4, v),
            TyK::F64 | TyK::Ptr => self.store_int(addr, 8, v),
            TyK::Struct(..) | TyK::Arr(..) | TyK::Vec(..) => {
                let n = match &self.m.types.list[t as usize] {
                    TyK::Struct(f, _) => f.len(),
                    TyK::Arr(n, _) => *n as usize,
                    TyK::Vec(n, e) => {
                        if let TyK::Int(1) = self.m.types.list[*e as usize] {
                            let n = *n;
                            let mut acc = 0u64;
                            for i in 0..n as usize {
                                match el(v, i) {
                                    C(c) => acc |= c << i,
                                    _ => return unsup("store symbolic <n x i1>"),
                                }
                            }
                            return self.store_int(addr, (n as usize + 7) / 8, &C(acc));
                        }
                        *n as usize
                    }
                    _ => 0,
                };
                for i in 0..n {
                    let (o, ft) = self.m.types.field_off(t, i);
                    self.store(addr + o, ft, &el(v, i))?;
                }
                Ok(())
            }
            _ => unsup("store type"),
        }
    }
    fn copy(&mut self, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = (src & 0xffff_ffff) as usize;
        let (data, sym): (Vec<u8>, Vec<(u32, (E, u8))>) = match self.obj((src >> 32) as u32) {
            Some(o) if so + n <= o.data.len() => (
                o.data[so..so + n].to_vec(),
                match &o.sym {
                    Some(s) => s.range(so as u32..(so + n) as u32).map(|(k, v)| (*k - so as u32, *v)).collect(),
                    None => vec![],
                },
            ),
            _ => return self.bad_addr("memcpy from", src, n),
        };
        let d = (dst & 0xffff_ffff) as usize;
        match self.obj_mut((dst >> 32) as u32) {
            Some(o) if d + n <= o.data.len() => {
                o.data[d..d + n].copy_from_slice(&data);
                clear_sym(o, d, n);
                if !sym.is_empty() {
                    let s = o.sym.get_or_insert_with(Default::default);
                    for (k, v) in sym {
                        s.insert(k + d as u32, v);
                    }
                }
                Ok(())
            }
            _ => self.bad_addr("memcpy to", dst, n),
        }
    }
    // ---- solving
    fn feasible(&mut self, e: E) -> Res {
        self.s.check(&mut self.x, &self.st.pc, e)
    }
    fn know(&mut self, e: E, v: u128) {
        let k = Rc::make_mut(&mut self.st.known);
        k.insert(e, v);
        if self.x.w(e) == 1 {
            let n = self.x.not(e);
            Rc::make_mut(&mut self.st.known).insert(n, 1 - v);
        }
    }
    fn add_pc(&mut self, e: E) {
        if self.x.as_c(e) == Some(1) {
            return;
        }
        if let X::Bin(B::And, a, b) = self.x.x(e) {
            if self.x.w(e) == 1 {
                self.add_pc(a);
                self.add_pc(b);
                self.know(e, 1);
                return;
            }
        }
        self.st.pc.push(e);
        self.know(e, 1);
        if let X::Bin(B::Eq, a, b) = self.x.x(e) {
            if let Some(v) = self.x.as_c(b) {
                self.know(a, v);
                if let X::Un(U::ZExt, a2) = self.x.x(a) {
                    self.know(a2, v);
                }
            }
        }
    }
    /// constraint that defines the auxiliary variable s
    fn add_def(&mut self, e: E, s: E) {
        if let X::Bin(B::And, a, b) = self.x.x(e) {
            if self.x.w(e) == 1 {
                self.add_def(a, s);
                self.add_def(b, s);
                return;
            }
        }
        if let X::RVar(v) = self.x.x(s) {
            if self.x.as_c(e).is_none() {
                self.x.defs.insert(e, v);
            }
            if let Some(m) = &mut self.st.model {
                if !matches!(m.get(&v), Some(V::A(_))) {
                    Rc::make_mut(m).insert(v, V::A(f64::NAN));
                }
            }
        }
        self.add_pc(e);
    }
    fn meval(&self, e: E) -> Option<V> {
        let m = self.st.model.as_ref()?;
        let mut memo = HashMap::new();
        solver::eval(&self.x, m, e, &mut memo)
    }
    fn merge_model(&self, m: Model) -> Option<Rc<Model>> {
        let mut o = match &self.st.model {
            Some(m0) => (**m0).clone(),
            None => return if self.st.pc.is_empty() { Some(Rc::new(m)) } else { None },
        };
        // values of auxiliary variables outside the slice may be stale
        for &s in self.st.sqrt.values() {
            if let X::RVar(v) = self.x.x(s) {
                if !m.contains_key(&v) {
                    o.insert(v, V::A(f64::NAN));
                }
            }
        }
        o.extend(m);
        Some(Rc::new(o))
    }
    /// decide a boolean, forking when both values are possible
    pub fn fork_bool(&mut self, e: E) -> R<bool> {
        if let Some(v) = self.x.as_c(e) {
            return Ok(v == 1);
        }
        if let Some(&v) = self.st.known.get(&e) {
            return Ok(v == 1);
        }
        let ne = self.x.not(e);
        let mv = match self.meval(e) {
            Some(V::B(v)) => Some(v == 1),
            _ => None,
        };
        let (first, first_model) = match mv {
            Some(b) => (b, self.st.model.clone()),
            None => match self.feasible(e) {
                Res::Sat(m) => (true, self.merge_model(m)),
                Res::Unsat => {
                    self.know(e, 0);
                    return Ok(false);
                }
                Res::Unknown => {
                    self.unknown_branches += 1;
                    (true, None)
                }
            },
        };
        let other = if first { ne } else { e };
        match self.feasible(other) {
            Res::Unsat => {
                self.know(e, first as u128);
                // with unknown models keep the constraint for the solver's benefit
                Ok(first)
            }
            r => {
                let m = match r {
                    Res::Sat(m) => self.merge_model(m),
                    _ => {
                        self.unknown_branches += 1;
                        None
                    }
                };
                self.forks += 1;
                let mut st2 = self.st.clone();
                std::mem::swap(&mut self.st, &mut st2);
                self.add_pc(other);
                self.st.model = m;
                std::mem::swap(&mut self.st, &mut st2);
                self.work.push(st2);
                let mine = if first { e } else { ne };
                self.add_pc(mine);
                self.st.model = first_model;
                Ok(first)
            }
        }
    }
    fn need_model(&mut self) -> R<()> {
        if self.st.model.is_none() {
            let mut cs = self.st.pc.clone();
            cs.sort();
            cs.dedup();
            match self.s.check_set(&mut self.x, cs) {
                Res::Sat(m) => self.st.model = Some(Rc::new(m)),
                Res::Unsat => return Err(Ctl::End),
                Res::Unknown => return unsup("no model (solver unknown)"),
            }
        }
        Ok(())
    }
    /// fork on every feasible value
    pub fn concretize(&mut self, e: E) -> R<u64> {
        if let Some(v) = self.x.as_c(e) {
            return Ok(v as u64);
        }
        if let Some(&v) = self.st.known.get(&e) {
            return Ok(v as u64);
        }
        if self.x.w(e) == 1 {
            return Ok(self.fork_bool(e)? as u64);
        }
        loop {
            self.need_model()?;
            let v = match self.meval(e) {
                Some(V::B(v)) => v,
                _ => {
                    // evaluate with the solver: introduce a fresh variable
                    let w = self.x.w(e);
                    let f = self.x.var(w);
                    let q = self.x.bin(B::Eq, e, f);
                    match self.feasible(q) {
                        Res::Sat(m) => match m.get(&(self.x.nvars - 1)) {
                            Some(V::B(v)) => *v,
                            _ => return unsup("concretize"),
                        },
                        Res::Unsat => return Err(Ctl::End),
                        Res::Unknown => return unsup("concretize (solver unknown)"),
                    }
                }
            };
            let w = self.x.w(e);
            let k = self.x.c(v, w);
            let q = self.x.bin(B::Eq, e, k);
            if self.x.as_c(q) == Some(0) {
                return unsup("concretize: model mismatch");
            }
            if self.fork_bool(q)? {
                self.know(e, v);
                return Ok(v as u64);
            }
        }
    }
    pub fn val_c(&mut self, v: &Val) -> R<u64> {
        match v {
            C(c) => Ok(*c),
            S(e) => self.concretize(*e),
            Agg(_) => unsup("aggregate as scalar"),
        }
    }
    #[inline]
    pub fn toe(&mut self, v: &Val, w: u32) -> E {
        match v {
            C(c) => self.x.c(*c as u128, w),
            S(e) => *e,
            Agg(_) => panic!("toe agg"),
        }
    }
    fn width(&self, t: Ty) -> u32 {
        match self.m.types.list[t as usize] {
            TyK::Int(w) => w,
            TyK::F32 => 32,
            TyK::F64 | TyK::Ptr => 64,
            _ => 0,
        }
    }
    // ---- operands
    #[inline]
    fn get(&mut self, o: &Opd) -> Val {
        match o {
            Opd::C(c) => C(*c),
            Opd::Reg(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(k) => {
                let k = k.clone();
                self.kval(&k)
            }
        }
    }
    fn kval(&mut self, k: &K) -> Val {
        match k {
            K::Int(v) => {
                if *v <= u64::MAX as u128 {
                    C(*v as u64)
                } else {
                    S(self.x.c(*v, 128))
                }
            }
            K::Sym(s, o) => {
                if *s as usize >= self.sym_addr.len() {
                    self.fill_syms()
                }
                C(self.sym_addr[*s as usize].wrapping_add(*o as u64))
            }
            K::Zero | K::Undef => C(0),
            K::Agg(v) => {
                let v: Vec<Val> = v.iter().map(|k| self.kval(k)).collect();
                Agg(Rc::new(v))
            }
            K::Bytes(b) => Agg(Rc::new(b.iter().map(|&b| C(b as u64)).collect())),
            K::Bad => C(0xbad0_bad0_bad0),
        }
    }
    fn set(&mut self, r: u32, v: Val) {
        if r != NOREG {
            self.st.frames.last_mut().unwrap().regs[r as usize] = v;
        }
    }
    fn zero_agg(&mut self, t: Ty) -> Val {
        match self.m.types.list[t as usize].clone() {
            TyK::Struct(f, _) => Agg(Rc::new(f.iter().map(|&t| self.zero_agg(t)).collect())),
            TyK::Arr(n, e) => {
                let z = self.zero_agg(e);
                Agg(Rc::new(vec![z; n as usize]))
            }
            TyK::Vec(n, e) => {
                let z = self.zero_agg(e);
                Agg(Rc::new(vec![z; n as usize]))
            }
            _ => C(0),
        }
    }
    // ---- reals
    fn real_of(&mut self, v: &Val, w: u32) -> R<Fr> {
        match v {
            C(c) => {
                let f = if w == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c) };
                Ok(if f.is_nan() {
                    Fr::Nan
                } else if f.is_infinite() {
                    Fr::Inf(f > 0.0)
                } else {
                    Fr::R(self.x.rc(f))
                })
            }
            S(e) => match self.x.x(*e) {
                X::Un(U::RBits, r) => Ok(Fr::R(r)),
                X::Ite(c, a, b) => {
                    let b2 = self.fork_bool(c)?;
                    let k = if b2 { a } else { b };
                    let v = self.norm(k);
                    self.real_of(&v, w)
                }
                _ => {
                    // integer-valued bit pattern: concretise
                    let c = self.concretize(*e)?;
                    self.real_of(&C(c), w)
                }
            },
            Agg(_) => unsup("aggregate float"),
        }
    }
    fn mkreal(&mut self, r: E, w: u32) -> Val {
        if let Some(f) = self.x.as_rc(r) {
            return C(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
        }
        S(self.x.un(U::RBits, r, w))
    }
    fn mkfr(&mut self, f: Fr, w: u32) -> Val {
        match f {
            Fr::R(r) => self.mkreal(r, w),
            Fr::Nan => C(if w == 32 { f32::NAN.to_bits() as u64 } else { f64::NAN.to_bits() }),
            Fr::Inf(p) => {
                let f = if p { f64::INFINITY } else { f64::NEG_INFINITY };
                C(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() })
            }
        }
    }
    fn rsign(&mut self, r: E) -> R<i32> {
        let z = self.x.rc(0.0);
        let p = self.x.bin(B::RLt, z, r);
        if self.fork_bool(p)? {
            return Ok(1);
        }
        let n = self.x.bin(B::RLt, r, z);
        if self.fork_bool(n)? {
            return Ok(-1);
        }
        Ok(0)
    }
    fn real_bin(&mut self, b: Bin, p: &Val, q: &Val, w: u32) -> R<Val> {
        let a = self.real_of(p, w)?;
        let c = self.real_of(q, w)?;
        let r = match (b, a, c) {
            (_, Fr::Nan, _) | (_, _, Fr::Nan) => Fr::Nan,
            (Bin::FAdd, Fr::R(a), Fr::R(c)) => Fr::R(self.x.bin(B::RAdd, a, c)),
            (Bin::FSub, Fr::R(a), Fr::R(c)) => Fr::R(self.x.bin(B::RSub, a, c)),
            (Bin::FMul, Fr::R(a), Fr::R(c)) => Fr::R(self.x.bin(B::RMul, a, c)),
            (Bin::FDiv, Fr::R(a), Fr::R(c)) => {
                let z = self.x.rc(0.0);
                let isz = self.x.bin(B::REq, c, z);
                if self.fork_bool(isz)? {
                    match self.rsign(a)? {
                        0 => Fr::Nan,
                        s => Fr::Inf(s > 0),
                    }
                } else if a == c {
                    Fr::R(self.x.rc(1.0))
                } else {
                    Fr::R(self.x.bin(B::RDiv, a, c))
                }
            }
            (Bin::FAdd, Fr::Inf(s), Fr::R(_)) | (Bin::FAdd, Fr::R(_), Fr::Inf(s)) | (Bin::FSub, Fr::Inf(s), Fr::R(_)) => Fr::Inf(s),
            (Bin::FSub, Fr::R(_), Fr::Inf(s)) => Fr::Inf(!s),
            (Bin::FAdd, Fr::Inf(s), Fr::Inf(t)) => {
                if s == t {
                    Fr::Inf(s)
                } else {
                    Fr::Nan
                }
            }
            (Bin::FSub, Fr::Inf(s), Fr::Inf(t)) => {
                if s != t {
                    Fr::Inf(s)
                } else {
                    Fr::Nan
                }
            }
            (Bin::FDiv, Fr::R(_), Fr::Inf(_)) => Fr::R(self.x.rc(0.0)),
            (Bin::FMul, Fr::Inf(s), Fr::R(r)) | (Bin::FMul, Fr::R(r), Fr::Inf(s)) => match self.rsign(r)? {
                0 => Fr::Nan,
                k => Fr::Inf((k > 0) == s),
            },
            (Bin::FDiv, Fr::Inf(s), Fr::R(r)) => match self.rsign(r)? {
                0 => Fr::Inf(s),
                k => Fr::Inf((k > 0) == s),
            },
            (Bin::FMul, Fr::Inf(s), Fr::Inf(t)) => Fr::Inf(s == t),
            (Bin::FDiv, Fr::Inf(_), Fr::Inf(_)) => Fr::Nan,
            (Bin::FRem, Fr::R(a), Fr::R(c)) => {
                // a - c*trunc(a/c), constant c only
                if self.x.as_rc(c).is_none() {
                    return unsup("frem symbolic divisor");
                }
                let q = self.x.bin(B::RDiv, a, c);
                let n = self.real_round(q, 2)?;
                let nc = self.x.rc(n);
                let m = self.x.bin(B::RMul, c, nc);
                Fr::R(self.x.bin(B::RSub, a, m))
            }
            _ => return unsup(format!("real op {b:?}")),
        };
        Ok(self.mkfr(r, w))
    }
    /// integer rounding of a real by case split; mode 0 floor, 1 ceil, 2 trunc, 3 round half away
    fn real_round(&mut self, r: E, mode: u8) -> R<f64> {
        if let Some(f) = self.x.as_rc(r) {
            return Ok(match mode {
                0 => f.floor(),
                1 => f.ceil(),
                2 => f.trunc(),
                _ => f.round(),
            });
        }
        loop {
            let f = match self.meval(r) {
                Some(V::R(q)) => q.f64(),
                _ => {
                    let v = self.x.rvar();
                    let id = self.x.nvars - 1;
                    let q = self.x.bin(B::REq, v, r);
                    match self.feasible(q) {
                        Res::Sat(m) => match m.get(&id) {
                            Some(V::R(q)) => q.f64(),
                            Some(V::A(f)) => *f,
                            _ => return unsup("real_round"),
                        },
                        Res::Unsat => return Err(Ctl::End),
                        Res::Unknown => return unsup("real_round (solver unknown)"),
                    }
                }
            };
            let n = match mode {
                0 => f.floor(),
                1 => f.ceil(),
                2 => f.trunc(),
                _ => f.round(),
            };
            // interval of n
            let (lo, lo_strict, hi, hi_strict) = match mode {
                0 => (n, false, n + 1.0, true),
                1 => (n - 1.0, true, n, false),
                2 => {
                    if n > 0.0 {
                        (n, false, n + 1.0, true)
                    } else if n < 0.0 {
                        (n - 1.0, true, n, false)
                    } else {
                        (-1.0, true, 1.0, true)
                    }
                }
                _ => {
                    if n > 0.0 {
                        (n - 0.5, false, n + 0.5, true)
                    } else if n < 0.0 {
                        (n - 0.5, true, n + 0.5, false)
                    } else {
                        (-0.5, true, 0.5, true)
                    }
                }
            };
            let l = self.x.rc(lo);
            let h = self.x.rc(hi);
            let a = self.x.bin(if lo_strict { B::RLt } else { B::RLe }, l, r);
            let b = self.x.bin(if hi_strict { B::RLt } else { B::RLe }, r, h);
            let c = self.x.and(a, b);
            if self.fork_bool(c)? {
                return Ok(n);
            }
        }
    }
    fn real_cmp(&mut self, p: u8, a: &Val, c: &Val, w: u32) -> R<Val> {
        let a = self.real_of(a, w)?;
        let c = self.real_of(c, w)?;
        // 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq ...
        if p == 0 || p == 15 {
            return Ok(C((p == 15) as u64));
        }
        if matches!(a, Fr::Nan) || matches!(c, Fr::Nan) {
            return Ok(C((p >= 8) as u64));
        }
        if p == 7 {
            return Ok(C(1));
        }
        if p == 8 {
            return Ok(C(0));
        }
        let k = if p >= 8 { p - 8 } else { p };
        let e = match (a, c) {
            (Fr::R(a), Fr::R(c)) => match k {
                1 => self.x.bin(B::REq, a, c),
                2 => self.x.bin(B::RLt, c, a),
                3 => self.x.bin(B::RLe, c, a),
                4 => self.x.bin(B::RLt, a, c),
                5 => self.x.bin(B::RLe, a, c),
                _ => {
                    let e = self.x.bin(B::REq, a, c);
                    self.x.not(e)
                }
            },
            (a, c) => {
                let f = |x: &Fr| match x {
                    Fr::Inf(true) => 1.0,
                    Fr::Inf(false) => -1.0,
                    _ => 0.0,
                };
                let (a, c) = (f(&a), f(&c));
                let r = match k {
                    1 => a == c,
                    2 => a > c,
                    3 => a >= c,
                    4 => a < c,
                    5 => a <= c,
                    _ => a != c,
                };
                return Ok(C(r as u64));
            }
        };
        Ok(self.norm(e))
    }
    fn fbin(&mut self, b: Bin, p: &Val, q: &Val, w: u32) -> R<Val> {
        if let (C(a), C(c)) = (p, q) {
            return Ok(C(if w == 32 {
                let (x, y) = (f32::from_bits(*a as u32), f32::from_bits(*c as u32));
                (match b {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u64
            } else {
                let (x, y) = (f64::from_bits(*a), f64::from_bits(*c));
                (match b {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits()
            }));
        }
        if self.real {
            return self.real_bin(b, p, q, w);
        }
        let (a, c) = (self.toe(p, w), self.toe(q, w));
        let op = match b {
            Bin::FAdd => B::FAdd,
            Bin::FSub => B::FSub,
            Bin::FMul => B::FMul,
            Bin::FDiv => B::FDiv,
            _ => return unsup("frem"),
        };
        let e = self.x.bin(op, a, c);
        Ok(self.norm(e))
    }
    fn fcmp(&mut self, p: u8, a: &Val, c: &Val, w: u32) -> R<Val> {
        if let (C(a), C(c)) = (a, c) {
            let (x, y) = if w == 32 { (f32::from_bits(*a as u32) as f64, f32::from_bits(*c as u32) as f64) } else { (f64::from_bits(*a), f64::from_bits(*c)) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                0 => false,
                1 => x == y,
                2 => x > y,
                3 => x >= y,
                4 => x < y,
                5 => x <= y,
                6 => !un && x != y,
                7 => !un,
                8 => un,
                9 => un || x == y,
                10 => un || x > y,
                11 => un || x >= y,
                12 => un || x < y,
                13 => un || x <= y,
                14 => x != y,
                _ => true,
            };
            return Ok(C(r as u64));
        }
        if self.real {
            return self.real_cmp(p, a, c, w);
        }
        let (a, c) = (self.toe(a, w), self.toe(c, w));
        let x = &mut self.x;
        let na = x.un(U::FIsNan, a, 1);
        let nc = x.un(U::FIsNan, c, 1);
        let un = if x.as_c(a).is_some() {
            nan_c(x, a, w);
            let k = nan_c(x, a, w);
            let k = x.c(k as u128, 1);
            x.or(k, nc)
        } else if x.as_c(c).is_some() {
            let k = nan_c(x, c, w);
            let k = x.c(k as u128, 1);
            x.or(na, k)
        } else if a == c {
            na
        } else {
            x.or(na, nc)
        };
        let ord = x.not(un);
        let k = if p >= 8 { p - 8 } else { p };
        let base = match k {
            1 => x.bin(B::FEq, a, c),
            2 => x.bin(B::FLt, c, a),
            3 => x.bin(B::FLe, c, a),
            4 => x.bin(B::FLt, a, c),
            5 => x.bin(B::FLe, a, c),
            6 => {
                let e = x.bin(B::FEq, a, c);
                let n = x.not(e);
                x.and(n, ord)
            }
            _ => ord,
        };
        let e = match p {
            0 => x.ff(),
            15 => x.tt(),
            8 => un,
            14 => {
                let e = x.bin(B::FEq, a, c);
                x.not(e)
            }
            p if p > 8 => x.or(un, base),
            _ => base,
        };
        Ok(self.norm(e))
    }
    fn ibin(&mut self, b: Bin, p: &Val, q: &Val, w: u32) -> R<Val> {
        let op = match b {
            Bin::Add => B::Add,
            Bin::Sub => B::Sub,
            Bin::Mul => B::Mul,
            Bin::UDiv => B::UDiv,
            Bin::SDiv => B::SDiv,
            Bin::URem => B::URem,
            Bin::SRem => B::SRem,
            Bin::Shl => B::Shl,
            Bin::LShr => B::LShr,
            Bin::AShr => B::AShr,
            Bin::And => B::And,
            Bin::Or => B::Or,
            Bin::Xor => B::Xor,
            _ => return self.fbin(b, p, q, w),
        };
        if let (C(a), C(c)) = (p, q) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (a, c) = (*a, *c);
                let v = match b {
                    Bin::Add => a.wrapping_add(c) & m,
                    Bin::Sub => a.wrapping_sub(c) & m,
                    Bin::Mul => a.wrapping_mul(c) & m,
                    Bin::And => a & c,
                    Bin::Or => a | c,
                    Bin::Xor => a ^ c,
                    Bin::Shl => {
                        if c >= w as u64 {
                            0
                        } else {
                            (a << c) & m
                        }
                    }
                    Bin::LShr => {
                        if c >= w as u64 {
                            0
                        } else {
                            a >> c
                        }
                    }
                    _ => match fold(op, a as u128, c as u128, w) {
                        Some((v, _)) => v as u64,
                        None => return unsup("division by zero reached"),
                    },
                };
                return Ok(C(v));
            }
        }
        let (a, c) = (self.toe(p, w), self.toe(q, w));
        let e = self.x.bin(op, a, c);
        Ok(self.norm(e))
    }
    fn icmp(&mut self, p: u8, a: &Val, c: &Val, w: u32) -> Val {
        if let (C(a), C(c)) = (a, c) {
            let (a, c) = (*a, *c);
            let sh = 64 - w.min(64);
            let (sa, sc) = (((a << sh) as i64) >> sh, ((c << sh) as i64) >> sh);
            let r = match p {
                0 => a == c,
                1 => a != c,
                2 => a > c,
                3 => a >= c,
                4 => a < c,
                5 => a <= c,
                6 => sa > sc,
                7 => sa >= sc,
                8 => sa < sc,
                _ => sa <= sc,
            };
            return C(r as u64);
        }
        let (a, c) = (self.toe(a, w), self.toe(c, w));
        let x = &mut self.x;
        let e = match p {
            0 => x.bin(B::Eq, a, c),
            1 => {
                let e = x.bin(B::Eq, a, c);
                x.not(e)
            }
            2 => x.bin(B::Ult, c, a),
            3 => x.bin(B::Ule, c, a),
            4 => x.bin(B::Ult, a, c),
            5 => x.bin(B::Ule, a, c),
            6 => x.bin(B::Slt, c, a),
            7 => x.bin(B::Sle, c, a),
            8 => x.bin(B::Slt, a, c),
            _ => x.bin(B::Sle, a, c),
        };
        self.norm(e)
    }
    fn cast(&mut self, c: Cast, v: &Val, fw: u32, tw: u32) -> R<Val> {
        use Cast::*;
        if let C(a) = v {
            let a = *a;
            if tw <= 64 {
                let m = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                let f = || if fw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) };
                let pk = |f: f64| if tw == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                return Ok(C(match c {
                    Trunc | ZExt => a & m,
                    SExt => (sx(a as u128, fw) as u64) & m,
                    PtrToInt | IntToPtr | BitCast => a,
                    FPTrunc | FPExt => pk(f()),
                    FPToUI => (f() as u64) & m,
                    FPToSI => {
                        if tw == 32 {
                            (f() as i32) as u32 as u64
                        } else {
                            (f() as i64) as u64 & m
                        }
                    }
                    UIToFP => {
                        if tw == 32 {
                            (a as f32).to_bits() as u64
                        } else {
                            (a as f64).to_bits()
                        }
                    }
                    SIToFP => {
                        let s = sx(a as u128, fw) as i64;
                        if tw == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                }));
            }
        }
        let e = self.toe(v, fw);
        let r = match c {
            Trunc => self.x.extract(e, 0, tw),
            ZExt => self.x.zext(e, tw),
            SExt => self.x.sext(e, tw),
            PtrToInt | IntToPtr | BitCast => e,
            _ if self.real => match c {
                FPTrunc | FPExt => {
                    let f = self.real_of(v, fw)?;
                    return Ok(self.mkfr(f, tw));
                }
                FPToUI | FPToSI => {
                    return match self.real_of(v, fw)? {
                        Fr::R(r) => {
                            let n = self.real_round(r, 2)?;
                            let k = n as i64 as u64;
                            Ok(C(if tw < 64 { k & ((1 << tw) - 1) } else { k }))
                        }
                        _ => unsup("nan/inf to int"),
                    };
                }
                _ => {
                    let k = self.concretize(e)?;
                    return self.cast(c, &C(k), fw, tw);
                }
            },
            FPTrunc | FPExt => self.x.un(U::FCast, e, tw),
            FPToUI => self.x.un(U::FToU, e, tw),
            FPToSI => self.x.un(U::FToS, e, tw),
            UIToFP | SIToFP => {
                if self.x.umax(e) < 4096 {
                    let k = self.concretize(e)?;
                    return self.cast(c, &C(k), fw, tw);
                }
                self.x.un(if c == UIToFP { U::UToF } else { U::SToF }, e, tw)
            }
        };
        Ok(self.norm(r))
    }
    pub fn select(&mut self, c: E, a: Val, b: Val, t: Ty) -> R<Val> {
        match (&a, &b) {
            (Agg(_), _) | (_, Agg(_)) => {
                return Ok(if self.fork_bool(c)? { a } else { b });
            }
            _ => {}
        }
        let tk = &self.m.types.list[t as usize];
        match tk {
            TyK::Ptr => {
                return Ok(if self.fork_bool(c)? { a } else { b });
            }
            TyK::F32 | TyK::F64 if self.real => {
                let w = if *tk == TyK::F32 { 32 } else { 64 };
                let simple = |v: &Val, x: &Ctx| match v {
                    C(k) => {
                        let f = if w == 32 { f32::from_bits(*k as u32) as f64 } else { f64::from_bits(*k) };
                        f.is_finite()
                    }
                    S(e) => matches!(x.x(*e), X::Un(U::RBits, _)),
                    _ => false,
                };
                if simple(&a, &self.x) && simple(&b, &self.x) {
                    let (p, q) = (self.real_of(&a, w)?, self.real_of(&b, w)?);
                    if let (Fr::R(p), Fr::R(q)) = (p, q) {
                        let r = self.x.ite(c, p, q);
                        return Ok(self.mkreal(r, w));
                    }
                }
                return Ok(if self.fork_bool(c)? { a } else { b });
            }
            _ => {}
        }
        let w = self.width(t);
        // opaque reals inside integers: fork
        for v in [&a, &b] {
            if let S(e) = v {
                if let X::Un(U::RBits, _) | X::Concat(..) = self.x.x(*e) {
                    if self.real {
                        return Ok(if self.fork_bool(c)? { a.clone() } else { b.clone() });
                    }
                }
            }
        }
        let (p, q) = (self.toe(&a, w), self.toe(&b, w));
        let e = self.x.ite(c, p, q);
        Ok(self.norm(e))
    }
    fn vmap2(&mut self, t: Ty, p: &Val, q: &Val, f: &mut dyn FnMut(&mut Vm, &Val, &Val, u32) -> R<Val>) -> R<Val> {
        match self.m.types.list[t as usize] {
            TyK::Vec(n, e) => {
                let w = self.width(e);
                let mut o = vec![];
                for i in 0..n as usize {
                    o.push(f(self, &el(p, i), &el(q, i), w)?);
                }
                Ok(Agg(Rc::new(o)))
            }
            _ => {
                let w = self.width(t);
                f(self, p, q, w)
            }
        }
    }
    // ---- running
    pub fn start(&mut self, entry: &str, args: &[u64]) {
        let s = *self.m.syms.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = match self.m.sym_list[s as usize].1 {
            Some(Sym::Func(f)) => f,
            _ => panic!("entry"),
        };
        let a: Vec<Val> = args.iter().map(|&a| C(a)).collect();
        self.push_frame(f, &a).ok().unwrap();
    }
    fn push_frame(&mut self, f: u32, args: &[Val]) -> R<()> {
        let body = match self.m.body(f) {
            Some(b) => b,
            None => return unsup(format!("external function {}", self.m.funcs[f as usize].pretty)),
        };
        self.executed.insert(f);
        if self.trace_calls {
            eprintln!("{:>w$}{}", "", self.m.funcs[f as usize].pretty, w = self.st.frames.len());
        }
        let mut regs = vec![C(0); body.nregs as usize];
        for (i, p) in body.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*p as usize] = a.clone();
            }
        }
        if self.st.frames.len() > 3000 {
            return unsup("stack overflow");
        }
        self.st.frames.push(Frame { f, body, blk: 0, ip: 0, regs, allocas: vec![] });
        Ok(())
    }
    /// run every pending state to its end
    pub fn run(&mut self) {
        loop {
            self.run_path();
            match self.work.pop() {
                Some(s) => self.st = s,
                None => break,
            }
            if self.timed_out {
                break;
            }
        }
    }
    /// run the current path to its end
    pub fn run_path(&mut self) {
        let s0 = self.st.steps;
        let r = self.exec();
        self.total_steps += self.st.steps - s0;
        match r {
            Ok(()) => {
                self.paths += 1;
                self.last_notes = self.st.notes.clone();
                if self.sample.is_none() && self.need_model().is_ok() {
                    if let Some(m) = self.st.model.clone() {
                        self.sample = Some(self.concrete_inputs(&m));
                    }
                }
            }
            Err(Ctl::End) => self.ended += 1,
            Err(Ctl::Unsup(s)) => {
                if self.unsup.is_empty() {
                    eprintln!("unsupported: {s}");
                    for f in self.st.frames.iter().rev().take(25) {
                        eprintln!("    {}", self.m.funcs[f.f as usize].pretty);
                    }
                }
                *self.unsup.entry(s).or_default() += 1;
            }
        }
    }
    fn jump(&mut self, to: u32) -> R<()> {
        let fr = self.st.frames.last().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let phis = &body.blocks[to as usize].phis;
        if phis.len() == 1 {
            let (d, inc) = &phis[0];
            for (l, o) in inc {
                if *l == from {
                    let v = self.get(o);
                    self.set(*d, v);
                    break;
                }
            }
        } else if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, inc) in phis {
                for (l, o) in inc {
                    if *l == from {
                        vals.push((*d, self.get(o)));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                self.set(d, v);
            }
        }
        let fr = self.st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn exec(&mut self) -> R<()> {
        let mut tick = 0u32;
        loop {
            // (re)load the frame
            let body = match self.st.frames.last() {
                Some(f) => f.body.clone(),
                None => return Ok(()),
            };
            let depth = self.st.frames.len();
            loop {
                let fr = self.st.frames.last().unwrap();
                let (blk, ip) = (fr.blk as usize, fr.ip as usize);
                let inst = &body.blocks[blk].insts[ip];
                self.st.steps += 1;
                tick += 1;
                if tick & 0xffff == 0 {
                    if self.st.steps > self.max_steps {
                        return unsup(format!("step limit in {}", self.fname()));
                    }
                    if let Some(d) = self.deadline {
                        if Instant::now() > d {
                            self.timed_out = true;
                            return unsup("deadline");
                        }
                    }
                }
                let v = match &inst.k {
                    IK::Bin(b, t, p, q) => {
                        let (p, q) = (self.get(p), self.get(q));
                        let b = *b;
                        match self.m.types.list[*t as usize] {
                            TyK::Int(w) => self.ibin(b, &p, &q, w)?,
                            TyK::F32 => self.fbin(b, &p, &q, 32)?,
                            TyK::F64 => self.fbin(b, &p, &q, 64)?,
                            _ => self.vmap2(*t, &p, &q, &mut |vm, x, y, w| vm.ibin(b, x, y, w))?,
                        }
                    }
                    IK::FNeg(t, o) => {
                        let v = self.get(o);
                        self.vmap2(*t, &v, &C(0), &mut |vm, x, _, w| vm.fneg(x, w))?
                    }
                    IK::ICmp(p, t, a, c) => {
                        let (a, c) = (self.get(a), self.get(c));
                        let p = *p;
                        match self.m.types.list[*t as usize] {
                            TyK::Int(w) => self.icmp(p, &a, &c, w),
                            TyK::Ptr => self.icmp(p, &a, &c, 64),
                            _ => self.vmap2(*t, &a, &c, &mut |vm, x, y, w| Ok(vm.icmp(p, x, y, w)))?,
                        }
                    }
                    IK::FCmp(p, t, a, c) => {
                        let (a, c) = (self.get(a), self.get(c));
                        let p = *p;
                        self.vmap2(*t, &a, &c, &mut |vm, x, y, w| vm.fcmp(p, x, y, w))?
                    }
                    IK::Cast(c, t, o, t2) => {
                        let v = self.get(o);
                        let c = *c;
                        match (&self.m.types.list[*t as usize], &self.m.types.list[*t2 as usize]) {
                            (TyK::Vec(n, e), TyK::Vec(n2, e2)) if n == n2 => {
                                let (n, fw, tw) = (*n, self.width(*e), self.width(*e2));
                                let mut o = vec![];
                                for i in 0..n as usize {
                                    o.push(self.cast(c, &el(&v, i), fw, tw)?);
                                }
                                Agg(Rc::new(o))
                            }
                            (TyK::Vec(..), _) | (_, TyK::Vec(..)) => self.bitcast(*t, &v, *t2)?,
                            _ => {
                                let (fw, tw) = (self.width(*t), self.width(*t2));
                                self.cast(c, &v, fw, tw)?
                            }
                        }
                    }
                    IK::Select(c, t, a, b, isvec) => {
                        let cv = self.get(c);
                        let (a, b) = (self.get(a), self.get(b));
                        if *isvec {
                            let (n, e) = match self.m.types.list[*t as usize] {
                                TyK::Vec(n, e) => (n, e),
                                _ => return unsup("select"),
                            };
                            let mut o = vec![];
                            for i in 0..n as usize {
                                let ci = el(&cv, i);
                                o.push(match ci {
                                    C(k) => {
                                        if k & 1 == 1 {
                                            el(&a, i)
                                        } else {
                                            el(&b, i)
                                        }
                                    }
                                    S(ce) => self.select(ce, el(&a, i), el(&b, i), e)?,
                                    _ => return unsup("select"),
                                });
                            }
                            Agg(Rc::new(o))
                        } else {
                            match cv {
                                C(k) => {
                                    if k & 1 == 1 {
                                        a
                                    } else {
                                        b
                                    }
                                }
                                S(e) => self.select(e, a, b, *t)?,
                                _ => return unsup("select"),
                            }
                        }
                    }
                    IK::Alloca(sz, n) => {
                        let n = self.get(n);
                        let n = self.val_c(&n)?;
                        let id = self.new_obj((sz * n) as usize);
                        self.st.frames.last_mut().unwrap().allocas.push(id);
                        C((id as u64) << 32)
                    }
                    IK::Load(t, p) => {
                        let p = self.get(p);
                        let a = self.val_c(&p)?;
                        self.load(a, *t)?
                    }
                    IK::Store(t, v, p) => {
                        let p = self.get(p);
                        let a = self.val_c(&p)?;
                        let v = self.get(v);
                        self.store(a, *t, &v)?;
                        C(0)
                    }
                    IK::Gep(b, off, dynv) => {
                        let b = self.get(b);
                        let mut acc = match b {
                            C(a) => C(a.wrapping_add(*off as u64)),
                            S(e) => {
                                let k = self.x.c(*off as u64 as u128, 64);
                                let r = self.x.bin(B::Add, e, k);
                                self.norm(r)
                            }
                            _ => return unsup("vector gep"),
                        };
                        for (o, sz, w) in dynv {
                            let i = self.get(o);
                            acc = match (&acc, &i) {
                                (C(a), C(i)) => C(a.wrapping_add((sx(*i as u128, *w) as u64).wrapping_mul(*sz))),
                                _ => {
                                    let ie = self.toe(&i, *w);
                                    let ie = self.x.sext(ie, 64);
                                    let k = self.x.c(*sz as u128, 64);
                                    let m = self.x.bin(B::Mul, ie, k);
                                    let ae = self.toe(&acc, 64);
                                    let r = self.x.bin(B::Add, m, ae);
                                    self.norm(r)
                                }
                            };
                        }
                        acc
                    }
                    IK::ExtractValue(o, idx) => {
                        let mut v = self.get(o);
                        for &i in idx {
                            v = el(&v, i as usize);
                        }
                        v
                    }
                    IK::InsertValue(a, t, b, idx) => {
                        let mut v = self.get(a);
                        let b = self.get(b);
                        if !matches!(v, Agg(_)) {
                            v = self.zero_agg(*t);
                        }
                        insert(&mut v, idx, b);
                        v
                    }
                    IK::ExtractElement(a, i) => {
                        let a = self.get(a);
                        let i = self.get(i);
                        let i = self.val_c(&i)?;
                        el(&a, i as usize)
                    }
                    IK::InsertElement(a, t, b, i) => {
                        let mut a = self.get(a);
                        let b = self.get(b);
                        let i = self.get(i);
                        let i = self.val_c(&i)?;
                        if !matches!(a, Agg(_)) {
                            a = self.zero_agg(*t);
                        }
                        insert(&mut a, &[i as u32], b);
                        a
                    }
                    IK::Shuffle(a, b, mask, n) => {
                        let a = self.get(a);
                        let b = self.get(b);
                        let mut o = vec![];
                        for &k in mask {
                            o.push(if k < 0 {
                                C(0)
                            } else if (k as u32) < *n {
                                el(&a, k as usize)
                            } else {
                                el(&b, k as usize - *n as usize)
                            });
                        }
                        Agg(Rc::new(o))
                    }
                    IK::AtomicRmw(op, t, p, v) => {
                        let p = self.get(p);
                        let a = self.val_c(&p)?;
                        let old = self.load(a, *t)?;
                        let v = self.get(v);
                        let w = self.width(*t);
                        let new = match op.as_str() {
                            "xchg" => v,
                            "add" => self.ibin(Bin::Add, &old, &v, w)?,
                            "sub" => self.ibin(Bin::Sub, &old, &v, w)?,
                            "and" => self.ibin(Bin::And, &old, &v, w)?,
                            "or" => self.ibin(Bin::Or, &old, &v, w)?,
                            "xor" => self.ibin(Bin::Xor, &old, &v, w)?,
                            _ => return unsup(format!("atomicrmw {op}")),
                        };
                        self.store(a, *t, &new)?;
                        old
                    }
                    IK::CmpXchg(t, p, e, n) => {
                        let p = self.get(p);
                        let a = self.val_c(&p)?;
                        let old = self.load(a, *t)?;
                        let e = self.get(e);
                        let w = self.width(*t);
                        let c = self.icmp(0, &old, &e, w);
                        let c = match c {
                            C(c) => c == 1,
                            S(e) => self.fork_bool(e)?,
                            _ => false,
                        };
                        if c {
                            let n = self.get(n);
                            self.store(a, *t, &n)?;
                        }
                        Agg(Rc::new(vec![old, C(c as u64)]))
                    }
                    IK::Freeze(o) => self.get(o),
                    IK::Fence => C(0),
                    IK::Br(t) => {
                        self.jump(*t)?;
                        continue;
                    }
                    IK::CondBr(c, a, b) => {
                        let cv = self.get(c);
                        let k = match cv {
                            C(k) => k & 1 == 1,
                            S(e) => self.fork_bool(e)?,
                            _ => return unsup("condbr"),
                        };
                        self.jump(if k { *a } else { *b })?;
                        continue;
                    }
                    IK::Switch(t, o, d, l) => {
                        let v = self.get(o);
                        let mut to = *d;
                        match v {
                            C(c) => {
                                for (k, b) in l {
                                    if *k as u64 == c {
                                        to = *b;
                                        break;
                                    }
                                }
                            }
                            S(e) => {
                                let w = self.width(*t);
                                for (k, b) in l {
                                    let kc = self.x.c(*k, w);
                                    let q = self.x.bin(B::Eq, e, kc);
                                    if self.fork_bool(q)? {
                                        to = *b;
                                        break;
                                    }
                                }
                            }
                            _ => return unsup("switch"),
                        }
                        self.jump(to)?;
                        continue;
                    }
                    IK::Ret(o) => {
                        let mut v = match o {
                            Some(o) => self.get(o),
                            None => C(0),
                        };
                        let fr = self.st.frames.pop().unwrap();
                        for id in fr.allocas.iter().rev() {
                            self.free_obj(*id);
                        }
                        if self.symhash && self.is_hash[fr.f as usize] {
                            v = C(0x5bd1_e995_1234_5678);
                        }
                        if self.st.frames.is_empty() {
                            return Ok(());
                        }
                        let cf = self.st.frames.last().unwrap();
                        let cb = cf.body.clone();
                        let ci = &cb.blocks[cf.blk as usize].insts[cf.ip as usize];
                        self.set(ci.dst, v);
                        if let IK::Call(_, _, _, Some(n)) = &ci.k {
                            self.jump(*n)?;
                        } else {
                            self.st.frames.last_mut().unwrap().ip += 1;
                        }
                        break;
                    }
                    IK::Unreachable => return unsup(format!("unreachable reached in {}", self.fname())),
                    IK::Resume | IK::LandingPad | IK::VaArg => return unsup("unsupported instruction"),
                    IK::Call(callee, args, rt, next) => {
                        let f = match callee {
                            Callee::Fn(s) => match self.m.sym_list[*s as usize].1 {
                                Some(Sym::Func(f)) => f,
                                _ => return unsup(format!("call of {}", self.m.sym_list[*s as usize].0)),
                            },
                            Callee::Ptr(o) => {
                                let p = self.get(o);
                                let a = self.val_c(&p)?;
                                let f = a.wrapping_sub(FNBASE);
                                if a < FNBASE || f % 16 != 0 || f / 16 >= self.m.funcs.len() as u64 {
                                    return unsup(format!("call of bad pointer {a:#x} in {}", self.fname()));
                                }
                                (f / 16) as u32
                            }
                            Callee::Asm(a) => {
                                if a.contains("cpuid") {
                                    let v = self.zero_agg(*rt);
                                    self.set(inst.dst, v);
                                } else {
                                    self.set(inst.dst, C(0));
                                }
                                self.st.frames.last_mut().unwrap().ip += 1;
                                continue;
                            }
                        };
                        let av: Vec<Val> = args.iter().map(|(_, o)| self.get(o)).collect();
                        if let Some((h, p)) = self.hooks[f as usize] {
                            self.cur_retw = match self.m.types.list[*rt as usize] {
                                TyK::Int(w) => w,
                                TyK::F32 => 32,
                                TyK::F64 | TyK::Ptr => 64,
                                _ => 0,
                            };
                            let v = h(self, &av, p)?;
                            self.set(inst.dst, v);
                            if let Some(n) = next {
                                self.jump(*n)?;
                            } else {
                                self.st.frames.last_mut().unwrap().ip += 1;
                            }
                            continue;
                        }
                        self.push_frame(f, &av)?;
                        break;
                    }
                };
                if self.itrace {
                    eprintln!("{} b{blk} i{ip} {:?} = {:?}", self.st.frames.len(), inst.k, v);
                }
                self.set(inst.dst, v);
                self.st.frames.last_mut().unwrap().ip += 1;
                debug_assert_eq!(depth, self.st.frames.len());
            }
        }
    }
    fn fneg(&mut self, v: &Val, w: u32) -> R<Val> {
        match v {
            C(c) => Ok(C(c ^ (1u64 << (w - 1)))),
            _ if self.real => {
                let f = self.real_of(v, w)?;
                let f = match f {
                    Fr::R(r) => Fr::R(self.x.un(U::RNeg, r, 0)),
                    Fr::Inf(s) => Fr::Inf(!s),
                    Fr::Nan => Fr::Nan,
                };
                Ok(self.mkfr(f, w))
            }
            S(e) => {
                let r = self.x.un(U::FNeg, *e, w);
                Ok(S(r))
            }
            _ => unsup("fneg"),
        }
    }
    fn bitcast(&mut self, t: Ty, v: &Val, t2: Ty) -> R<Val> {
        let flat = |vm: &mut Vm, t: Ty, v: &Val| -> E {
            match vm.m.types.list[t as usize] {
                TyK::Vec(n, e) => {
                    let w = vm.width(e);
                    let mut acc: Option<E> = None;
                    for i in 0..n as usize {
                        let p = vm.toe(&el(v, i), w);
                        acc = Some(match acc {
                            None => p,
                            Some(a) => vm.x.concat(p, a),
                        });
                    }
                    acc.unwrap()
                }
                _ => {
                    let w = vm.width(t);
                    vm.toe(v, w)
                }
            }
        };
        let bits = match self.m.types.list[t as usize] {
            TyK::Vec(n, e) => n * self.width(e),
            _ => self.width(t),
        };
        if bits > 128 {
            // vector to vector, through bytes
            let id = self.new_obj((bits / 8) as usize);
            let a = (id as u64) << 32;
            self.store(a, t, v)?;
            let r = self.load(a, t2)?;
            self.free_obj(id);
            return Ok(r);
        }
        let e = flat(self, t, v);
        match self.m.types.list[t2 as usize] {
            TyK::Vec(n, el_t) => {
                let w = self.width(el_t);
                let mut o = vec![];
                for i in 0..n {
                    let p = self.x.extract(e, i * w, w);
                    o.push(self.norm(p));
                }
                Ok(Agg(Rc::new(o)))
            }
            _ => Ok(self.norm(e)),
        }
    }
    pub fn concrete_inputs(&self, m: &Model) -> Vec<(u8, f64, u64)> {
        let mut out = vec![];
        for &(k, e) in &self.st.log {
            let mut memo = HashMap::new();
            match self.x.x(e) {
                X::RVar(v) => {
                    let f = match m.get(&v) {
                        Some(V::R(r)) => r.f64(),
                        Some(V::A(f)) => *f,
                        _ => 0.0,
                    };
                    out.push((k, f, (f as f32).to_bits() as u64));
                }
                _ => match solver::eval(&self.x, m, e, &mut memo) {
                    Some(V::B(v)) => out.push((k, if k == 1 { f32::from_bits(v as u32) as f64 } else { v as f64 }, v as u64)),
                    _ => out.push((k, 0.0, 0)),
                },
            }
        }
        out
    }
    fn report(&mut self, tag: u32, what: String, key: String, m: &Model) {
        let trace = self.st.frames.iter().rev().take(16).map(|f| self.m.funcs[f.f as usize].pretty.clone()).collect();
        let _ = key;
        let inputs = self.concrete_inputs(m);
        let notes = self.st.notes.clone();
        self.violations.push(Violation { tag, what, trace, inputs, notes });
    }
    pub fn fresh_input(&mut self, kind: u8, w: u32) -> E {
        let n = self.st.log.len();
        let e = match self.inputs.get(&(n, kind, w)) {
            Some(&e) => e,
            None => {
                let e = if w == 0 { self.x.rvar() } else { self.x.var(w) };
                self.inputs.insert((n, kind, w), e);
                e
            }
        };
        e
    }
    fn boolarg(&mut self, v: &Val) -> E {
        match v {
            C(c) => self.x.c((*c != 0) as u128, 1),
            S(e) => {
                let w = self.x.w(*e);
                let z = self.x.c(0, w);
                let q = self.x.bin(B::Eq, *e, z);
                self.x.not(q)
            }
            _ => panic!("bool"),
        }
    }
    /// comparisons of terms that are equal, or differ by a constant, as rational functions
    fn rational(&mut self, c: E) -> E {
        if self.st.roots.is_empty() || self.x.as_c(c).is_some() {
            return c;
        }
        let mut memo = std::mem::take(&mut self.fracs);
        let r = crate::poly::fold_bool(&mut self.x, c, &mut memo);
        self.fracs = memo;
        r
    }
    fn do_check(&mut self, c: E, tag: u32, what: String) -> R<()> {
        self.checks += 1;
        let c = self.rational(c);
        if let Some(v) = self.x.as_c(c) {
            if v == 1 {
                return Ok(());
            }
        } else if self.st.known.get(&c) == Some(&1) {
            return Ok(());
        }
        let key = format!("{tag}|{what}");
        if self.seen_tags.contains(&key) {
            // already reported: continue where it holds
            return self.do_assume(c);
        }
        let n = self.x.not(c);
        // several candidate models for the same failure are reported
        let r = if self.x.as_c(n) == Some(1) {
            self.st.model = None;
            match self.need_model() {
                Ok(()) => Res::Sat(Model::new()),
                Err(_) => Res::Unknown,
            }
        } else {
            self.feasible(n)
        };
        match r {
            Res::Unsat => {
                self.know(c, 1);
                Ok(())
            }
            Res::Sat(m) => {
                let mm = match self.merge_model(m) {
                    Some(m) => m,
                    None => {
                        let mut cs = self.st.pc.clone();
                        cs.push(n);
                        cs.sort();
                        cs.dedup();
                        match self.s.check_set(&mut self.x, cs) {
                            Res::Sat(m) => Rc::new(m),
                            Res::Unsat => {
                                return Err(Ctl::End);
                            }
                            Res::Unknown => {
                                self.unknown_checks += 1;
                                return self.do_assume(c);
                            }
                        }
                    }
                };
                self.report(tag, what, key.clone(), &mm);
                let cnt = self.violations.iter().filter(|v| format!("{}|{}", v.tag, v.what) == key).count();
                if cnt >= self.max_viol {
                    self.seen_tags.insert(key);
                }
                self.do_assume(c)
            }
            Res::Unknown => {
                self.unknown_checks += 1;
                self.do_assume(c)
            }
        }
    }
    fn do_assume(&mut self, c: E) -> R<()> {
        match self.x.as_c(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Ctl::End),
            None => {}
        }
        match self.st.known.get(&c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Ctl::End),
            None => {}
        }
        if let Some(V::B(1)) = self.meval(c) {
            self.add_pc(c);
            return Ok(());
        }
        match self.feasible(c) {
            Res::Unsat => Err(Ctl::End),
            Res::Sat(m) => {
                self.st.model = self.merge_model(m);
                self.add_pc(c);
                Ok(())
            }
            Res::Unknown => {
                self.st.model = None;
                self.add_pc(c);
                Ok(())
            }
        }
    }
    fn find_hook(&self, i: usize) -> Option<(HookFn, u32)> {
        crate::hooks::find(&self.m.funcs[i].name, &self.m.funcs[i].pretty)
    }
}
pub enum Fr {
    R(E),
    Nan,
    Inf(bool),
}
fn nan_c(x: &Ctx, e: E, w: u32) -> bool {
    let v = x.as_c(e).unwrap();
    if w == 32 {
        f32::from_bits(v as u32).is_nan()
    } else {
        f64::from_bits(v as u64).is_nan()
    }
}
pub fn el(v: &Val, i: usize) -> Val {
    match v {
        Agg(a) => a[i].clone(),
        _ => C(0),
    }
}
fn insert(v: &mut Val, idx: &[u32], b: Val) {
    if idx.is_empty() {
        *v = b;
        return;
    }
    if let Agg(a) = v {
        insert(&mut Rc::make_mut(a)[idx[0] as usize], &idx[1..], b);
    }
}
fn clear_sym(o: &mut Obj, off: usize, n: usize) {
    if let Some(s) = &mut o.sym {
        let ks: Vec<u32> = s.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
        for k in ks {
            s.remove(&k);
        }
        if s.is_empty() {
            o.sym = None;
        }
    }
}

// ------------------------------------------------------------------ hooks
pub mod h {
    use super::*;
    pub fn alloc(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        // p: index of the size argument
        let n = vm.val_c(&a[p as usize])?;
        if n > 1 << 28 {
            return unsup("huge allocation");
        }
        let id = vm.new_obj(n as usize);
        Ok(C((id as u64) << 32))
    }
    pub fn calloc(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let n = vm.val_c(&a[0])? * vm.val_c(&a[1])?;
        let id = vm.new_obj(n as usize);
        Ok(C((id as u64) << 32))
    }
    pub fn free(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let p = vm.val_c(&a[0])?;
        if p & 0xffff_ffff != 0 {
            return unsup("free of interior pointer");
        }
        vm.free_obj((p >> 32) as u32);
        Ok(C(0))
    }
    pub fn realloc(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let ptr = vm.val_c(&a[0])?;
        let n = vm.val_c(&a[p as usize])? as usize;
        let mut old = 0;
        match vm.obj_mut((ptr >> 32) as u32) {
            Some(o) => {
                old = o.data.len();
                o.data.resize(n, 0);
                if n < old {
                    clear_sym(o, n, old - n);
                }
            }
            None => {
                if ptr != 0 {
                    return unsup("realloc");
                }
            }
        }
        let _ = old;
        if ptr == 0 {
            let id = vm.new_obj(n);
            return Ok(C((id as u64) << 32));
        }
        Ok(C(ptr))
    }
    pub fn posix_memalign(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let p = vm.val_c(&a[0])?;
        let n = vm.val_c(&a[2])?;
        let id = vm.new_obj(n as usize);
        vm.store_int(p, 8, &C((id as u64) << 32))?;
        Ok(C(0))
    }
    pub fn memcpy(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let d = vm.val_c(&a[0])?;
        let s = vm.val_c(&a[1])?;
        let n = vm.val_c(&a[2])?;
        vm.copy(d, s, n as usize)?;
        Ok(C(0))
    }
    pub fn memset(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let d = vm.val_c(&a[0])?;
        let n = vm.val_c(&a[2])? as usize;
        if n == 0 {
            return Ok(C(0));
        }
        match &a[1] {
            C(b) => {
                let off = (d & 0xffff_ffff) as usize;
                match vm.obj_mut((d >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() => {
                        o.data[off..off + n].fill(*b as u8);
                        clear_sym(o, off, n);
                    }
                    _ => return vm.bad_addr("memset", d, n),
                }
            }
            v => {
                for i in 0..n {
                    vm.store_int(d + i as u64, 1, v)?;
                }
            }
        }
        Ok(C(0))
    }
    pub fn bcmp(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let x = vm.val_c(&a[0])?;
        let y = vm.val_c(&a[1])?;
        let n = vm.val_c(&a[2])? as usize;
        if p == 0 {
            let mut acc = vm.x.tt();
            for i in 0..n as u64 {
                let u = vm.load_int(x + i, 1, 8)?;
                let v = vm.load_int(y + i, 1, 8)?;
                let q = vm.icmp(0, &u, &v, 8);
                let q = vm.toe(&q, 1);
                acc = vm.x.and(acc, q);
            }
            let n = vm.x.not(acc);
            let z = vm.x.zext(n, 32);
            return Ok(vm.norm(z));
        }
        for i in 0..n as u64 {
            let u = vm.load_int(x + i, 1, 8)?;
            let v = vm.load_int(y + i, 1, 8)?;
            let (u, v) = (vm.val_c(&u)?, vm.val_c(&v)?);
            if u != v {
                return Ok(C(if u < v { u32::MAX as u64 } else { 1 }));
            }
        }
        Ok(C(0))
    }
    pub fn strlen(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let mut p = vm.val_c(&a[0])?;
        let s = p;
        loop {
            let v = vm.load_int(p, 1, 8)?;
            if vm.val_c(&v)? == 0 {
                return Ok(C(p - s));
            }
            p += 1;
        }
    }
    pub fn getrandom(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let nr = vm.val_c(&a[0])?;
        if nr == 318 {
            let p = vm.val_c(&a[1])?;
            let n = vm.val_c(&a[2])? as usize;
            let mut s = vm.hash_seed;
            for i in 0..n {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                vm.store_int(p + i as u64, 1, &C(s >> 56))?;
            }
            return Ok(C(n as u64));
        }
        if nr == 202 {
            return Ok(C(0)); // futex
        }
        if nr == 332 {
            fail(vm, 38)?; // statx
            return Ok(C(u64::MAX));
        }
        unsup(format!("syscall {nr}"))
    }
    pub fn errno(vm: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        if vm.st.fs.errno == 0 {
            let id = vm.new_obj(4);
            Rc::make_mut(&mut vm.st.fs).errno = (id as u64) << 32;
        }
        Ok(C(vm.st.fs.errno))
    }
    fn fail(vm: &mut Vm, code: u64) -> R<Val> {
        let C(p) = errno(vm, &[], 0)? else { return unsup("errno") };
        vm.store_int(p, 4, &C(code))?;
        Ok(C(u32::MAX as u64))
    }
    pub fn open(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let mut p = vm.val_c(&a[0])?;
        let flags = vm.val_c(&a[1])?;
        let mut name = vec![];
        loop {
            let v = vm.load_int(p, 1, 8)?;
            let b = vm.val_c(&v)? as u8;
            if b == 0 {
                break;
            }
            name.push(b);
            p += 1;
        }
        let fs = Rc::make_mut(&mut vm.st.fs);
        let f = match fs.files.iter().position(|x| x.0 == name) {
            Some(f) => f,
            None if flags & 0x40 != 0 => {
                fs.files.push((name, vec![]));
                fs.files.len() - 1
            }
            None => return fail(vm, 2),
        };
        if flags & 0x200 != 0 {
            fs.files[f].1.clear();
        }
        let pos = if flags & 0x400 != 0 { fs.files[f].1.len() } else { 0 };
        fs.fds.push((f, pos));
        Ok(C(100 + fs.fds.len() as u64 - 1))
    }
    pub fn fwrite(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let fd = vm.val_c(&a[0])?;
        let p = vm.val_c(&a[1])?;
        let n = vm.val_c(&a[2])?;
        if fd < 100 {
            return Ok(C(n));
        }
        let mut data = vec![];
        for i in 0..n {
            data.push(vm.load_int(p + i, 1, 8)?);
        }
        let fs = Rc::make_mut(&mut vm.st.fs);
        let (f, pos) = fs.fds[fd as usize - 100];
        let c = &mut fs.files[f].1;
        for (i, v) in data.into_iter().enumerate() {
            if pos + i < c.len() {
                c[pos + i] = v;
            } else {
                c.push(v);
            }
        }
        fs.fds[fd as usize - 100].1 += n as usize;
        Ok(C(n))
    }
    pub fn fread(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let fd = vm.val_c(&a[0])?;
        let p = vm.val_c(&a[1])?;
        let n = vm.val_c(&a[2])? as usize;
        if fd < 100 {
            return Ok(C(0));
        }
        let (f, pos) = vm.st.fs.fds[fd as usize - 100];
        let fs = vm.st.fs.clone();
        let c = &fs.files[f].1;
        let end = (pos + n).min(c.len()).max(pos);
        for i in pos..end {
            vm.store_int(p + (i - pos) as u64, 1, &c[i].clone())?;
        }
        drop(fs);
        Rc::make_mut(&mut vm.st.fs).fds[fd as usize - 100].1 = end;
        Ok(C((end - pos) as u64))
    }
    pub fn lseek(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let fd = vm.val_c(&a[0])? as usize - 100;
        let off = vm.val_c(&a[1])? as i64;
        let wh = vm.val_c(&a[2])?;
        let (f, pos) = vm.st.fs.fds[fd];
        let base = match wh {
            0 => 0,
            1 => pos as i64,
            _ => vm.st.fs.files[f].1.len() as i64,
        };
        Rc::make_mut(&mut vm.st.fs).fds[fd].1 = (base + off) as usize;
        Ok(C((base + off) as u64))
    }
    pub fn nosys(vm: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        fail(vm, 38)
    }
    pub fn first(_: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        Ok(a[0].clone())
    }
    pub fn panic(vm: &mut Vm, a: &[Val], kind: u32) -> R<Val> {
        let mut loc = String::new();
        let mut msg = String::new();
        for v in a {
            if let C(p) = v {
                if let (Some(b), true) = (vm.rbytes(*p, 24), loc.is_empty()) {
                    let fp = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let fl = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let ln = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    let co = u32::from_le_bytes(b[20..24].try_into().unwrap());
                    if fl > 0 && fl < 300 && ln < 100000 {
                        if let Some(s) = vm.rbytes(fp, fl as usize) {
                            if let Ok(s) = String::from_utf8(s) {
                                if s.ends_with(".rs") {
                                    loc = format!("{s}:{ln}:{co}");
                                    continue;
                                }
                            }
                        }
                    }
                }
                // &str argument / fmt::Arguments with literal pieces
                if msg.is_empty() {
                    if let Some(b) = vm.rbytes(*p, 16) {
                        let q = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        if let Some(b2) = vm.rbytes(q, 16) {
                            let fp = u64::from_le_bytes(b2[0..8].try_into().unwrap());
                            let fl = u64::from_le_bytes(b2[8..16].try_into().unwrap());
                            if fl > 0 && fl < 300 {
                                if let Some(s) = vm.rbytes(fp, fl as usize) {
                                    if let Ok(s) = String::from_utf8(s) {
                                        msg = s;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if loc.is_empty() {
            loc = vm.fname();
        }
        if vm.st.flags & 1 != 0 {
            return Err(Ctl::End);
        }
        let f = vm.x.ff();
        let what = format!("panic at {loc} {msg}");
        let _ = kind;
        vm.do_check(f, 9000, what)?;
        Err(Ctl::End)
    }
    pub fn abort(_: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        unsup("abort")
    }
    // ---- vx interface
    pub fn vx_int(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let w = vm.val_c(&a[0])? as u32;
        let e = vm.fresh_input(0, w);
        vm.st.log.push((0, e));
        let z = vm.x.zext(e, 64);
        Ok(S(z))
    }
    pub fn vx_float(vm: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        if vm.real {
            let r = vm.fresh_input(1, 0);
            vm.st.log.push((1, r));
            Ok(S(vm.x.un(U::RBits, r, 32)))
        } else {
            let r = vm.fresh_input(1, 32);
            vm.st.log.push((1, r));
            Ok(S(r))
        }
    }
    pub fn vx_choose(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let n = vm.val_c(&a[0])?;
        let w = 64 - (n - 1).leading_zeros();
        let e = vm.fresh_input(2, w);
        if let Some(&v) = vm.st.known.get(&e) {
            vm.st.log.push((2, e));
            return Ok(C(v as u64));
        }
        let k = vm.x.c((n - 1) as u128, w);
        let c = vm.x.bin(B::Ule, e, k);
        vm.do_assume(c)?;
        let v = vm.concretize(e)?;
        vm.st.log.push((2, e));
        Ok(C(v))
    }
    pub fn vx_assume(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let c = vm.boolarg(&a[0]);
        vm.do_assume(c)?;
        Ok(C(0))
    }
    pub fn vx_check(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let c = vm.boolarg(&a[0]);
        let tag = vm.val_c(&a[1])? as u32;
        vm.do_check(c, tag, format!("check {tag}"))?;
        Ok(C(0))
    }
    pub fn vx_cover(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let t = vm.val_c(&a[0])? as u32;
        *vm.covers.entry(t).or_default() += 1;
        Ok(C(0))
    }
    pub fn vx_note(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let t = vm.val_c(&a[0])? as u32;
        match &a[1] {
            C(v) => vm.st.notes.push((t, *v)),
            _ => vm.st.notes.push((t, u64::MAX)),
        }
        Ok(C(0))
    }
    pub fn vx_fork(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let c = vm.boolarg(&a[0]);
        Ok(C(vm.fork_bool(c)? as u64))
    }
    pub fn vx_concrete(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        Ok(C(vm.val_c(&a[0])?))
    }
    pub fn vx_grid(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        vm.st.grid = vm.val_c(&a[0])? as u32;
        Ok(C(0))
    }
    /// a candidate for the value of later square roots; used only where the solver proves it
    pub fn vx_root(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        if vm.real {
            if let Fr::R(r) = vm.real_of(&a[0], 32)? {
                vm.st.roots.push(r);
            }
        }
        Ok(C(0))
    }
    pub fn vx_flags(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let v = vm.val_c(&a[0])?;
        vm.st.flags = v as u32;
        Ok(C(0))
    }
    // ---- integer intrinsics
    /// p = op*256 + width; op 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    pub fn overflow(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let (op, w) = (p >> 8, p & 255);
        let bop = match op {
            0 | 3 => B::Add,
            1 | 4 => B::Sub,
            _ => B::Mul,
        };
        if let (C(x), C(y)) = (&a[0], &a[1]) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = mask(w);
                let (v, o) = match op {
                    0 => {
                        let r = x as u128 + y as u128;
                        (r & m, r > m)
                    }
                    1 => ((x as u128).wrapping_sub(y as u128) & m, x < y),
                    2 => {
                        let r = x as u128 * y as u128;
                        (r & m, r > m)
                    }
                    _ => {
                        let (sa, sb) = (sx(x as u128, w), sx(y as u128, w));
                        let r = match op {
                            3 => sa + sb,
                            4 => sa - sb,
                            _ => sa * sb,
                        };
                        (r as u128 & m, sx(r as u128 & m, w) != r)
                    }
                };
                return Ok(Agg(Rc::new(vec![C(v as u64), C(o as u64)])));
            }
        }
        let (x, y) = (vm.toe(&a[0], w), vm.toe(&a[1], w));
        let r = vm.x.bin(bop, x, y);
        let o = match op {
            0 => {
                if vm.x.umax(x).checked_add(vm.x.umax(y)).map_or(false, |s| s <= mask(w)) {
                    vm.x.ff()
                } else {
                    vm.x.bin(B::Ult, r, x)
                }
            }
            1 => vm.x.bin(B::Ult, x, y),
            2 => {
                if vm.x.umax(x).checked_mul(vm.x.umax(y)).map_or(false, |s| s <= mask(w)) {
                    vm.x.ff()
                } else {
                    if w > 64 {
                        return unsup("umul128 overflow");
                    }
                    let (x2, y2) = (vm.x.zext(x, 2 * w), vm.x.zext(y, 2 * w));
                    let m = vm.x.bin(B::Mul, x2, y2);
                    let hi = vm.x.extract(m, w, w);
                    let z = vm.x.c(0, w);
                    let q = vm.x.bin(B::Eq, hi, z);
                    vm.x.not(q)
                }
            }
            _ => {
                if w > 64 {
                    if let (Some(a0), Some(b0)) = (vm.x.as_c(x), vm.x.as_c(y)) {
                        let (sa, sb) = (a0 as i128, b0 as i128);
                        let o = match op {
                            3 => sa.checked_add(sb),
                            4 => sa.checked_sub(sb),
                            _ => sa.checked_mul(sb),
                        }
                        .is_none();
                        vm.x.c(o as u128, 1)
                    } else {
                        return unsup("s128 overflow");
                    }
                } else {
                    let (x2, y2) = (vm.x.sext(x, 2 * w), vm.x.sext(y, 2 * w));
                    let m = vm.x.bin(bop, x2, y2);
                    let r2 = vm.x.sext(r, 2 * w);
                    let q = vm.x.bin(B::Eq, m, r2);
                    vm.x.not(q)
                }
            }
        };
        Ok(Agg(Rc::new(vec![vm.norm(r), vm.norm(o)])))
    }
    /// op*256+width; 0 umax 1 umin 2 smax 3 smin 4 uadd.sat 5 usub.sat 6 abs
    pub fn iminmax(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let (op, w) = (p >> 8, p & 255);
        if op == 6 {
            let z = C(0);
            let c = vm.icmp(8, &a[0], &z, w);
            let n = vm.ibin(Bin::Sub, &z, &a[0], w)?;
            return match c {
                C(1) => Ok(n),
                C(_) => Ok(a[0].clone()),
                S(e) => {
                    let (x, y) = (vm.toe(&n, w), vm.toe(&a[0], w));
                    let r = vm.x.ite(e, x, y);
                    Ok(vm.norm(r))
                }
                _ => unsup("abs"),
            };
        }
        let (x, y) = (vm.toe(&a[0], w), vm.toe(&a[1], w));
        let r = match op {
            0 | 1 => {
                let c = vm.x.bin(B::Ult, x, y);
                if op == 0 {
                    vm.x.ite(c, y, x)
                } else {
                    vm.x.ite(c, x, y)
                }
            }
            2 | 3 => {
                let c = vm.x.bin(B::Slt, x, y);
                if op == 2 {
                    vm.x.ite(c, y, x)
                } else {
                    vm.x.ite(c, x, y)
                }
            }
            4 => {
                let s = vm.x.bin(B::Add, x, y);
                let c = vm.x.bin(B::Ult, s, x);
                let m = vm.x.c(mask(w), w);
                vm.x.ite(c, m, s)
            }
            _ => {
                let s = vm.x.bin(B::Sub, x, y);
                let c = vm.x.bin(B::Ult, x, y);
                let z = vm.x.c(0, w);
                vm.x.ite(c, z, s)
            }
        };
        Ok(vm.norm(r))
    }
    /// 0 ctlz 1 cttz 2 ctpop 3 bswap 4 bitreverse
    pub fn bits(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let (op, w) = (p >> 8, p & 255);
        if let Agg(v) = &a[0] {
            let mut o = vec![];
            for x in v.iter() {
                o.push(bits(vm, &[x.clone()], p)?);
            }
            return Ok(Agg(Rc::new(o)));
        }
        let v = vm.val_c(&a[0])?;
        Ok(C(match op {
            0 => (if v == 0 { w } else { v.leading_zeros() - (64 - w) }) as u64,
            1 => (if v == 0 { w } else { v.trailing_zeros() }) as u64,
            2 => v.count_ones() as u64,
            3 => v.swap_bytes() >> (64 - w),
            _ => v.reverse_bits() >> (64 - w),
        }))
    }
    pub fn fsh(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let (op, w) = (p >> 8, p & 255);
        let s = (vm.val_c(&a[2])? % w as u64) as u32;
        let (x, y) = (vm.toe(&a[0], w), vm.toe(&a[1], w));
        if s == 0 {
            return Ok(if op == 0 { a[0].clone() } else { a[1].clone() });
        }
        let s = if op == 0 { s } else { w - s };
        let h = vm.x.extract(x, 0, w - s);
        let l = vm.x.extract(y, w - s, s);
        let r = vm.x.concat(h, l);
        Ok(vm.norm(r))
    }
    // ---- float intrinsics: op*256+width
    pub fn fun(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        let (op, w) = (p >> 8, p & 255);
        let all_c = a.iter().all(|v| matches!(v, C(_)));
        if let Agg(v) = &a[0] {
            // vector fma
            let mut o = vec![];
            for i in 0..v.len() {
                let ai: Vec<Val> = a.iter().map(|q| el(q, i)).collect();
                o.push(fun(vm, &ai, p)?);
            }
            return Ok(Agg(Rc::new(o)));
        }
        let exact = all_c && op == 0 && !vm.st.roots.is_empty() && {
            // with root candidates given, irrational roots stay exact
            let v = vm.val_c(&a[0])?;
            let x = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
            x >= 0.0 && x.is_finite() && x.sqrt() * x.sqrt() != x
        };
        if all_c && !exact {
            let g = |i: usize| match a.get(i) {
                Some(C(c)) => *c,
                _ => 0,
            };
            if w == 32 {
                let (x, y, z) = (f32::from_bits(g(0) as u32), f32::from_bits(g(1) as u32), f32::from_bits(g(2) as u32));
                return Ok(C((match op {
                    0 => x.sqrt(),
                    1 => x.abs(),
                    2 => x.floor(),
                    3 => x.ceil(),
                    4 => x.trunc(),
                    5 => x.round(),
                    6 => x.max(y),
                    7 => x.min(y),
                    8 => x.mul_add(y, z),
                    9 => x.sin(),
                    10 => x.cos(),
                    11 => x.exp(),
                    12 => x.log2(),
                    13 => x.ln(),
                    14 => x.powf(y),
                    15 => x.powi(g(1) as u32 as i32),
                    16 => x.atan2(y),
                    17 => x.copysign(y),
                    18 => x.log10(),
                    19 => x.tan(),
                    20 => x.acos(),
                    21 => x.asin(),
                    22 => x.atan(),
                    23 => x.round_ties_even(),
                    _ => return unsup("float fn"),
                })
                .to_bits() as u64));
            }
            let (x, y, z) = (f64::from_bits(g(0)), f64::from_bits(g(1)), f64::from_bits(g(2)));
            return Ok(C((match op {
                0 => x.sqrt(),
                1 => x.abs(),
                2 => x.floor(),
                3 => x.ceil(),
                4 => x.trunc(),
                5 => x.round(),
                6 => x.max(y),
                7 => x.min(y),
                8 => x.mul_add(y, z),
                9 => x.sin(),
                10 => x.cos(),
                11 => x.exp(),
                12 => x.log2(),
                13 => x.ln(),
                14 => x.powf(y),
                15 => x.powi(g(1) as u32 as i32),
                16 => x.atan2(y),
                17 => x.copysign(y),
                18 => x.log10(),
                19 => x.tan(),
                20 => x.acos(),
                21 => x.asin(),
                22 => x.atan(),
                23 => x.round_ties_even(),
                _ => return unsup("float fn"),
            })
            .to_bits()));
        }
        if vm.real {
            return real_fun(vm, a, op, w);
        }
        let e = vm.toe(&a[0], w);
        let r = match op {
            0 => vm.x.un(U::FSqrt, e, w),
            1 => vm.x.un(U::FAbs, e, w),
            2 => vm.x.un(U::FRoundDown, e, w),
            3 => vm.x.un(U::FRoundUp, e, w),
            4 => vm.x.un(U::FTrunc, e, w),
            6 | 7 => {
                let f = vm.toe(&a[1], w);
                let lt = vm.x.bin(B::FLt, e, f);
                let pick = if op == 6 { vm.x.ite(lt, f, e) } else { vm.x.ite(lt, e, f) };
                let ne = vm.x.un(U::FIsNan, e, 1);
                let nf = vm.x.un(U::FIsNan, f, 1);
                let p2 = vm.x.ite(nf, e, pick);
                vm.x.ite(ne, f, p2)
            }
            _ => return unsup(format!("symbolic float function {op}")),
        };
        Ok(vm.norm(r))
    }
    fn real_fun(vm: &mut Vm, a: &[Val], op: u32, w: u32) -> R<Val> {
        let f0 = vm.real_of(&a[0], w)?;
        let r0 = match f0 {
            Fr::R(r) => r,
            Fr::Nan => match op {
                6 | 7 => return Ok(a[1].clone()),
                _ => return Ok(vm.mkfr(Fr::Nan, w)),
            },
            Fr::Inf(s) => match op {
                6 if s => return Ok(a[0].clone()),
                6 => return Ok(a[1].clone()),
                7 if s => return Ok(a[1].clone()),
                7 => return Ok(a[0].clone()),
                _ => return unsup("float function of infinity"),
            },
        };
        let z = vm.x.rc(0.0);
        match op {
            0 => {
                let neg = vm.x.bin(B::RLt, r0, z);
                if vm.fork_bool(neg)? {
                    return Ok(vm.mkfr(Fr::Nan, w));
                }
                if let Some(&s) = vm.st.sqrt.get(&(0, r0, 0)) {
                    return Ok(vm.mkreal(s, w));
                }
                // sqrt(x*x) = |x|
                if let X::Bin(B::RMul, p, q) = vm.x.x(r0) {
                    if p == q {
                        let n = vm.x.un(U::RNeg, p, 0);
                        let c = vm.x.bin(B::RLt, p, z);
                        let r = vm.x.ite(c, n, p);
                        return Ok(vm.mkreal(r, w));
                    }
                }
                for r in vm.st.roots.clone() {
                    let rr = vm.x.bin(B::RMul, r, r);
                    let c1 = vm.x.bin(B::REq, rr, r0);
                    let c1 = vm.rational(c1);
                    let c2 = vm.x.bin(B::RLe, z, r);
                    let c = vm.x.bin(B::And, c1, c2);
                    let n = vm.x.not(c);
                    if matches!(vm.feasible(n), Res::Unsat) {
                        return Ok(vm.mkreal(r, w));
                    }
                }
                let s = aux(vm, 0, r0, 0);
                Rc::make_mut(&mut vm.st.sqrt).insert((0, r0, 0), s);
                if let Some(q) = vm.x.as_rc(r0).and_then(crate::solver::Rat::from_f64) {
                    crate::poly::square(s, q);
                }
                let ss = vm.x.bin(B::RMul, s, s);
                let c1 = vm.x.bin(B::REq, ss, r0);
                let c2 = vm.x.bin(B::RLe, z, s);
                vm.add_def(c1, s);
                vm.add_def(c2, s);
                Ok(vm.mkreal(s, w))
            }
            1 => {
                let n = vm.x.un(U::RNeg, r0, 0);
                let c = vm.x.bin(B::RLt, r0, z);
                let r = vm.x.ite(c, n, r0);
                Ok(vm.mkreal(r, w))
            }
            2..=5 => {
                let n = vm.real_round(r0, op as u8 - 2)?;
                let r = vm.x.rc(n);
                Ok(vm.mkreal(r, w))
            }
            6 | 7 => match vm.real_of(&a[1], w)? {
                Fr::Nan => Ok(a[0].clone()),
                Fr::Inf(s) => Ok(if s == (op == 6) { a[1].clone() } else { a[0].clone() }),
                Fr::R(r1) => {
                    let c = vm.x.bin(B::RLt, r0, r1);
                    let r = if op == 6 { vm.x.ite(c, r1, r0) } else { vm.x.ite(c, r0, r1) };
                    Ok(vm.mkreal(r, w))
                }
            },
            8 => {
                let m = vm.real_bin(Bin::FMul, &a[0], &a[1], w)?;
                vm.real_bin_or_c(Bin::FAdd, &m, &a[2], w)
            }
            14 | 15 => {
                // small constant integer powers
                let n = match (&a[1], op) {
                    (C(c), 15) => *c as u32 as i32,
                    (C(c), _) => {
                        let f = if w == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c) };
                        if f.fract() != 0.0 || f.abs() > 8.0 {
                            if f == 0.5 {
                                return real_fun(vm, &a[..1], 0, w);
                            }
                            return unsup("real pow");
                        }
                        f as i32
                    }
                    _ => return unsup("real pow exponent"),
                };
                let mut r = vm.x.rc(1.0);
                for _ in 0..n.abs() {
                    r = vm.x.bin(B::RMul, r, r0);
                }
                if n < 0 {
                    let one = C(if w == 32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() });
                    let rv = vm.mkreal(r, w);
                    return vm.real_bin(Bin::FDiv, &one, &rv, w);
                }
                Ok(vm.mkreal(r, w))
            }
            9..=13 | 16 | 18..=22 => {
                // uninterpreted: same argument, same value
                let r1 = if op == 16 {
                    match vm.real_of(&a[1], w)? {
                        Fr::R(r) => r + 1,
                        _ => return unsup("atan2 inf"),
                    }
                } else {
                    0
                };
                if let Some(&s) = vm.st.sqrt.get(&(op as u8, r0, r1)) {
                    return Ok(vm.mkreal(s, w));
                }
                let s = aux(vm, op as u8, r0, r1);
                Rc::make_mut(&mut vm.st.sqrt).insert((op as u8, r0, r1), s);
                match op {
                    9 | 10 => {
                        let l = vm.x.rc(-1.0);
                        let h = vm.x.rc(1.0);
                        let c = vm.x.bin(B::RLe, l, s);
                        let d = vm.x.bin(B::RLe, s, h);
                        vm.add_def(c, s);
                        vm.add_def(d, s);
                    }
                    11 => {
                        let c = vm.x.bin(B::RLt, z, s);
                        vm.add_def(c, s);
                    }
                    16 => atan2_axioms(vm, r0, r1 - 1, s),
                    _ => {}
                }
                Ok(vm.mkreal(s, w))
            }
            17 => {
                // copysign with constant / symbolic sign
                let n = vm.x.un(U::RNeg, r0, 0);
                let c = vm.x.bin(B::RLt, r0, z);
                let ab = vm.x.ite(c, n, r0);
                let neg = match &a[1] {
                    C(c) => vm.x.c((*c >> (w - 1) & 1) as u128, 1),
                    v => match vm.real_of(&v.clone(), w)? {
                        Fr::R(r1) => vm.x.bin(B::RLt, r1, z),
                        _ => return unsup("copysign"),
                    },
                };
                let nab = vm.x.un(U::RNeg, ab, 0);
                let r = vm.x.ite(neg, nab, ab);
                Ok(vm.mkreal(r, w))
            }
            _ => unsup(format!("real function {op}")),
        }
    }
    /// s = atan2(y, x): where s lies relative to the borders of `grid` equal sectors
    fn atan2_axioms(vm: &mut Vm, y: E, x: E, s: E) {
        use std::f64::consts::PI;
        let z = vm.x.rc(0.0);
        let (lo, hi) = (vm.x.rc(-PI), vm.x.rc(PI));
        let ypos = vm.x.bin(B::RLt, z, y);
        let yneg = vm.x.bin(B::RLt, y, z);
        let xneg = vm.x.bin(B::RLt, x, z);
        let (nypos, nyneg) = (vm.x.not(ypos), vm.x.not(yneg));
        let spos = vm.x.bin(B::RLt, z, s);
        let sneg = vm.x.bin(B::RLt, s, z);
        let s0 = vm.x.bin(B::REq, s, z);
        let spi = vm.x.bin(B::REq, s, hi);
        let a = vm.x.bin(B::RLe, s, hi);
        vm.add_def(a, s);
        let a = vm.x.bin(B::RLt, lo, s);
        vm.add_def(a, s);
        let imp = |vm: &mut Vm, p: E, q: E| {
            let n = vm.x.not(p);
            let o = vm.x.or(n, q);
            vm.add_def(o, s);
        };
        let lthi = vm.x.bin(B::RLt, s, hi);
        let pos = vm.x.and(spos, lthi);
        imp(vm, ypos, pos);
        imp(vm, yneg, sneg);
        let y0 = vm.x.and(nypos, nyneg);
        let c = vm.x.and(y0, xneg);
        imp(vm, c, spi);
        let nx = vm.x.not(xneg);
        let c = vm.x.and(y0, nx);
        imp(vm, c, s0);
        // order relative to each border, and to directions slightly above and below it
        const D: f64 = 2e-4;
        let n = vm.st.grid as i64;
        for k in -n..=n {
            for d in [0.0, -D, D] {
                let b = 2.0 * PI * k as f64 / n as f64 + d;
                if b <= -PI + D / 2.0 || b >= PI - D / 2.0 || b.abs() < D / 2.0 {
                    continue;
                }
                // cross product with the border direction
                let (cb, sb) = (vm.x.rc(b.cos()), vm.x.rc(b.sin()));
                let p = vm.x.bin(B::RMul, y, cb);
                let q = vm.x.bin(B::RMul, x, sb);
                let beta = vm.x.rc(b);
                let half = if b > 0.0 { ypos } else { yneg };
                if d >= 0.0 {
                    let above = vm.x.bin(B::RLt, q, p);
                    let ga = vm.x.bin(B::RLt, beta, s);
                    let c = vm.x.and(half, above);
                    imp(vm, c, ga);
                }
                if d <= 0.0 {
                    let below = vm.x.bin(B::RLt, p, q);
                    let gb = vm.x.bin(B::RLt, s, beta);
                    let c = vm.x.and(half, below);
                    imp(vm, c, gb);
                }
            }
        }
    }
    fn aux(vm: &mut Vm, op: u8, a: E, b: E) -> E {
        // auxiliary variables are shared between paths
        let key = (a as usize | (b as usize) << 32, 100 + op, 0u32);
        if let Some(&e) = vm.inputs.get(&key) {
            return e;
        }
        let e = vm.x.rvar();
        vm.inputs.insert(key, e);
        e
    }
    pub fn fptosat(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        // p = signed<<16 | tw<<8 | fw
        let (sg, tw, fw) = (p >> 16, (p >> 8) & 255, p & 255);
        let lo = if sg == 1 { -(2f64.powi(tw as i32 - 1)) } else { 0.0 };
        let hi = if sg == 1 { 2f64.powi(tw as i32 - 1) } else { 2f64.powi(tw as i32) };
        let pack = |f: f64| -> u64 {
            let v: u128 = if f.is_nan() {
                0
            } else if f <= lo {
                (lo as i128) as u128
            } else if f >= hi {
                (hi as i128 - 1) as u128
            } else {
                (f as i128) as u128
            };
            (v & mask(tw)) as u64
        };
        if let C(c) = &a[0] {
            let f = if fw == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c) };
            return Ok(C(pack(f)));
        }
        if vm.real {
            return match vm.real_of(&a[0], fw)? {
                Fr::Nan => Ok(C(0)),
                Fr::Inf(s) => Ok(C(pack(if s { f64::INFINITY } else { f64::NEG_INFINITY }))),
                Fr::R(r) => {
                    let l = vm.x.rc(lo);
                    let c = vm.x.bin(B::RLe, r, l);
                    if vm.fork_bool(c)? {
                        return Ok(C(pack(lo)));
                    }
                    let h = vm.x.rc(hi);
                    let c = vm.x.bin(B::RLe, h, r);
                    if vm.fork_bool(c)? {
                        return Ok(C(pack(hi)));
                    }
                    let n = vm.real_round(r, 2)?;
                    Ok(C(pack(n)))
                }
            };
        }
        let e = vm.toe(&a[0], fw);
        let nan = vm.x.un(U::FIsNan, e, 1);
        let k = |vm: &mut Vm, f: f64| {
            let b = if fw == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
            vm.x.c(b, fw)
        };
        let (l, h) = (k(vm, lo), k(vm, hi));
        let cl = vm.x.bin(B::FLe, e, l);
        let ch = vm.x.bin(B::FLe, h, e);
        let conv = vm.x.un(if sg == 1 { U::FToS } else { U::FToU }, e, tw);
        let z = vm.x.c(0, tw);
        let lv = vm.x.c(pack(lo) as u128, tw);
        let hv = vm.x.c(pack(hi) as u128, tw);
        let r = vm.x.ite(ch, hv, conv);
        let r = vm.x.ite(cl, lv, r);
        let r = vm.x.ite(nan, z, r);
        Ok(vm.norm(r))
    }
    pub fn fpclass(vm: &mut Vm, a: &[Val], w: u32) -> R<Val> {
        let m = vm.val_c(&a[1])?;
        // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +normal 9 +inf
        if let C(c) = &a[0] {
            let f = if w == 32 { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c) };
            let neg = f.is_sign_negative();
            let cat = if w == 32 { f32::from_bits(*c as u32).classify() } else { f64::from_bits(*c).classify() };
            use std::num::FpCategory as F;
            let bit = match (cat, neg) {
                (F::Nan, _) => 1,
                (F::Infinite, true) => 2,
                (F::Normal, true) => 3,
                (F::Subnormal, true) => 4,
                (F::Zero, true) => 5,
                (F::Zero, false) => 6,
                (F::Subnormal, false) => 7,
                (F::Normal, false) => 8,
                (F::Infinite, false) => 9,
            };
            let r = (m >> bit & 1) | if bit == 1 { m & 1 } else { 0 };
            return Ok(C(r));
        }
        if vm.real {
            // finite reals: zero counts as +0, others as normal
            let r = match vm.real_of(&a[0], w)? {
                Fr::R(r) => r,
                _ => return unsup("fpclass"),
            };
            let z = vm.x.rc(0.0);
            let mut acc = vm.x.ff();
            if m >> 3 & 1 == 1 {
                let c = vm.x.bin(B::RLt, r, z);
                acc = vm.x.or(acc, c);
            }
            if m >> 6 & 1 == 1 {
                let c = vm.x.bin(B::REq, r, z);
                acc = vm.x.or(acc, c);
            }
            if m >> 8 & 1 == 1 {
                let c = vm.x.bin(B::RLt, z, r);
                acc = vm.x.or(acc, c);
            }
            return Ok(vm.norm(acc));
        }
        let e = vm.toe(&a[0], w);
        let nan = vm.x.un(U::FIsNan, e, 1);
        if m == 3 {
            return Ok(vm.norm(nan));
        }
        let (ew, mw) = if w == 32 { (8, 23) } else { (11, 52) };
        let ex = vm.x.extract(e, mw, ew);
        let ma = vm.x.extract(e, 0, mw);
        let sg = vm.x.extract(e, w - 1, 1);
        let z1 = vm.x.c(0, ew);
        let o1 = vm.x.c(mask(ew), ew);
        let z2 = vm.x.c(0, mw);
        let e0 = vm.x.bin(B::Eq, ex, z1);
        let e1 = vm.x.bin(B::Eq, ex, o1);
        let m0 = vm.x.bin(B::Eq, ma, z2);
        let ns = vm.x.not(sg);
        let (ne0, ne1, nm0) = (vm.x.not(e0), vm.x.not(e1), vm.x.not(m0));
        let inf = vm.x.and(e1, m0);
        let sub = vm.x.and(e0, nm0);
        let zero = vm.x.and(e0, m0);
        let norm = vm.x.and(ne0, ne1);
        let mut acc = vm.x.ff();
        if m & 3 == 3 {
            acc = vm.x.or(acc, nan);
        } else if m & 3 != 0 {
            return unsup("fpclass snan");
        }
        for (b, s, k) in [(2, sg, inf), (3, sg, norm), (4, sg, sub), (5, sg, zero), (6, ns, zero), (7, ns, sub), (8, ns, norm), (9, ns, inf)] {
            if m >> b & 1 == 1 {
                let c = vm.x.and(s, k);
                acc = vm.x.or(acc, c);
            }
        }
        Ok(vm.norm(acc))
    }
    pub fn reduce_add(vm: &mut Vm, a: &[Val], w: u32) -> R<Val> {
        let mut acc = C(0);
        if let Agg(v) = &a[0] {
            for x in v.iter() {
                acc = vm.ibin(Bin::Add, &acc, x, w)?;
            }
        }
        Ok(acc)
    }
    pub fn reduce_or(vm: &mut Vm, a: &[Val], w: u32) -> R<Val> {
        let mut acc = C(0);
        if let Agg(v) = &a[0] {
            for x in v.iter() {
                acc = vm.ibin(Bin::Or, &acc, x, w)?;
            }
        }
        Ok(acc)
    }
    pub fn tol(_: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        Ok(C(1))
    }
    pub fn nop(vm: &mut Vm, a: &[Val], p: u32) -> R<Val> {
        super::ok_hook(vm, a, p)
    }
    pub fn load_relative(vm: &mut Vm, a: &[Val], _: u32) -> R<Val> {
        let _ = (vm, a);
        unsup("llvm.load.relative")
    }
    pub fn none(vm: &mut Vm, _: &[Val], _: u32) -> R<Val> {
        let _ = vm;
        Ok(C(0))
    }
}
impl Vm {
    #[allow(dead_code)]
    fn real_bin_or_c(&mut self, b: Bin, p: &Val, q: &Val, w: u32) -> R<Val> {
        self.fbin(b, p, q, w)
    }
}
