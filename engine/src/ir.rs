//! Parser for textual LLVM IR (opaque pointers).  Function bodies are parsed
//! lazily.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vec(u32, Ty),
    Other,
}
#[derive(Default)]
pub struct Types {
    pub list: Vec<TyK>,
    map: HashMap<TyK, Ty>,
    pub named: HashMap<String, Ty>,
    cache: HashMap<Ty, (u64, u64)>,
}
impl Types {
    pub fn get(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.map.get(&k) {
            return t;
        }
        let t = self.list.len() as Ty;
        self.list.push(k.clone());
        self.map.insert(k, t);
        t
    }
    pub fn size_align(&mut self, t: Ty) -> (u64, u64) {
        if let Some(&x) = self.cache.get(&t) {
            return x;
        }
        let r = match self.list[t as usize].clone() {
            TyK::Void | TyK::Other => (0, 1),
            TyK::Int(w) => {
                let b = ((w as u64) + 7) / 8;
                let b2 = b.next_power_of_two();
                (b2.max(1), b2.min(16).max(1))
            }
            TyK::F32 => (4, 4),
            TyK::F64 => (8, 8),
            TyK::Ptr => (8, 8),
            TyK::Arr(n, e) => {
                let (s, a) = self.size_align(e);
                (n * s, a)
            }
            TyK::Vec(n, e) => {
                let (s, _) = self.size_align(e);
                let s = if let TyK::Int(1) = self.list[e as usize] { (n as u64 + 7) / 8 } else { n as u64 * s };
                (s.next_power_of_two(), s.next_power_of_two())
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.size_align(x);
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                if !packed {
                    o = (o + al - 1) / al * al;
                }
                (o, al)
            }
        };
        self.cache.insert(t, r);
        r
    }
    pub fn size(&mut self, t: Ty) -> u64 {
        self.size_align(t).0
    }
    pub fn field_off(&mut self, t: Ty, i: usize) -> (u64, Ty) {
        match self.list[t as usize].clone() {
            TyK::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(*x);
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, *x);
                    }
                    o += s;
                }
                panic!("field")
            }
            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                let s = self.size(e);
                (s * i as u64, e)
            }
            _ => panic!("field_off"),
        }
    }
}

/// compile-time constants
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    /// address of global symbol + offset
    Sym(u32, i64),
    Zero,
    Undef,
    Agg(Vec<K>),
    Bytes(Vec<u8>),
    Bad,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Rc<K>),
    /// small integer / resolved constant
    C(u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
    PtrToInt,
    IntToPtr,
    BitCast,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opd),
    Asm(String),
}
#[derive(Debug)]
pub enum IK {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(u8, Ty, Opd, Opd),
    FCmp(u8, Ty, Opd, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Select(Opd, Ty, Opd, Opd, bool),
    Alloca(u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u64, u32)>),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Ty, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>, u32),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Fence,
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    LandingPad,
    VaArg,
}
#[derive(Debug)]
pub struct Inst {
    pub dst: u32,
    pub k: IK,
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ret_ty: Ty,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    /// text range of the definition (None: declaration)
    pub text: Option<(usize, usize)>,
    pub body: Option<Rc<Body>>,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub init: K,
    pub ty: Ty,
    pub external: bool,
    pub constant: bool,
}
#[derive(Clone, Copy)]
pub enum Sym {
    Func(u32),
    Global(u32),
}
pub struct Module {
    pub text: String,
    pub types: Types,
    pub syms: HashMap<String, u32>,
    pub sym_list: Vec<(String, Option<Sym>)>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
}
pub const NOREG: u32 = u32::MAX;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a mut ModTabs,
    regs: HashMap<Vec<u8>, u32>,
    blks: HashMap<Vec<u8>, u32>,
    nblk: u32,
}
/// tables shared by all parsers
#[derive(Default)]
pub struct ModTabs {
    pub types: Types,
    pub syms: HashMap<String, u32>,
    pub sym_list: Vec<(String, Option<Sym>)>,
}
fn demangle(s: &str) -> String {
    // legacy mangling: _ZN(len name)*17h<hash>E
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut out: Vec<String> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut n = 0;
            while i < b.len() && b[i].is_ascii_digit() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + n > b.len() {
                break;
            }
            out.push(String::from_utf8_lossy(&b[i..i + n]).to_string());
            i += n;
        }
        if out.last().map_or(false, |x| x.len() == 17 && x.starts_with('h')) {
            out.pop();
        }
        let mut t = out.join("::");
        for (a, c) in [
            ("$LT$", "<"),
            ("$GT$", ">"),
            ("$RF$", "&"),
            ("$BP$", "*"),
            ("$u20$", " "),
            ("$u7b$", "{"),
            ("$u7d$", "}"),
            ("$C$", ","),
            ("$LP$", "("),
            ("$RP$", ")"),
            ("$u5b$", "["),
            ("$u5d$", "]"),
            ("$u3b$", ";"),
            ("$u2b$", "+"),
            ("$u27$", "'"),
            ("..", "::"),
        ] {
            t = t.replace(a, c);
        }
        t
    } else {
        s.to_string()
    }
}

impl<'a> P<'a> {
    fn err(&self, m: &str) -> ! {
        let e = (self.i + 160).min(self.s.len());
        let b = self.i.saturating_sub(120);
        panic!("parse error: {m} at <<<{}|||{}>>>", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]))
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                break;
            }
        }
    }
    fn sp(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1
        }
    }
    fn c(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.err(&format!("expected {t}"))
        }
    }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.') {
            j += 1
        }
        let s: &'a [u8] = self.s;
        &s[self.i..j]
    }
    fn word(&mut self) -> &'a [u8] {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eatw(&mut self, t: &str) -> bool {
        if self.peek_word() == t.as_bytes() {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.c() == b'-';
        if neg {
            self.i += 1
        }
        let mut v: i128 = 0;
        let st = self.i;
        while self.c().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.c() - b'0') as i128);
            self.i += 1
        }
        if st == self.i {
            self.err("int")
        }
        if neg {
            -v
        } else {
            v
        }
    }
    /// name after % or @
    fn name(&mut self) -> Vec<u8> {
        if self.c() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.c() != b'"' {
                self.i += 1
            }
            let r = self.s[st..self.i].to_vec();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.c().is_ascii_alphanumeric() || matches!(self.c(), b'_' | b'.' | b'$' | b'-') {
                self.i += 1
            }
            self.s[st..self.i].to_vec()
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' / '[' / '{'
        let mut d = 0;
        loop {
            match self.c() {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.c() != b'"' {
                        self.i += 1
                    }
                }
                0 => self.err("balance"),
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.c() {
            b'[' => {
                self.i += 1;
                let n = self.int() as u64;
                self.expect("x");
                let e = self.ty();
                self.expect("]");
                self.m.types.get(TyK::Arr(n, e))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list("}");
                self.m.types.get(TyK::Struct(f, false))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.c() == b'{' {
                    self.i += 1;
                    let f = self.ty_list("}");
                    self.expect(">");
                    self.m.types.get(TyK::Struct(f, true))
                } else {
                    let n = self.int() as u32;
                    self.expect("x");
                    let e = self.ty();
                    self.expect(">");
                    self.m.types.get(TyK::Vec(n, e))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let n = String::from_utf8(n).unwrap();
                match self.m.types.named.get(&n) {
                    Some(t) => *t,
                    None => self.m.types.get(TyK::Other),
                }
            }
            _ => {
                let w = self.word();
                let k = match w {
                    b"void" => TyK::Void,
                    b"ptr" => TyK::Ptr,
                    b"float" => TyK::F32,
                    b"double" => TyK::F64,
                    b"half" | b"x86_fp80" | b"fp128" | b"label" | b"metadata" | b"token" | b"opaque" | b"bfloat" => TyK::Other,
                    _ if w.first() == Some(&b'i') && w.len() > 1 => {
                        TyK::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| self.err("ty")))
                    }
                    _ => self.err("type"),
                };
                if k == TyK::Ptr && self.s[self.i..].starts_with(b" addrspace(") {
                    self.word();
                    self.skip_balanced();
                }
                self.m.types.get(k)
            }
        }
    }
    fn ty_list(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(",");
        }
    }
    fn sym(&mut self, n: Vec<u8>) -> u32 {
        let n = String::from_utf8_lossy(&n).to_string();
        if let Some(&i) = self.m.syms.get(&n) {
            return i;
        }
        let i = self.m.sym_list.len() as u32;
        self.m.sym_list.push((n.clone(), None));
        self.m.syms.insert(n, i);
        i
    }
    fn tyk(&self, t: Ty) -> TyK {
        self.m.types.list[t as usize].clone()
    }
    fn width(&self, t: Ty) -> u32 {
        match self.m.types.list[t as usize] {
            TyK::Int(w) => w,
            TyK::F32 => 32,
            TyK::F64 | TyK::Ptr => 64,
            _ => 0,
        }
    }
    fn konst(&mut self, t: Ty) -> K {
        self.ws();
        match self.c() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                K::Sym(self.sym(n), 0)
            }
            b'-' | b'0'..=b'9' => {
                // integer or float
                match self.tyk(t) {
                    TyK::F32 | TyK::F64 => {
                        let f = if self.s[self.i..].starts_with(b"0x") {
                            self.i += 2;
                            let w = self.word();
                            f64::from_bits(u64::from_str_radix(std::str::from_utf8(w).unwrap(), 16).unwrap_or_else(|_| self.err("hexfloat")))
                        } else {
                            let st = self.i;
                            while matches!(self.c(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                                self.i += 1
                            }
                            std::str::from_utf8(&self.s[st..self.i]).unwrap().parse::<f64>().unwrap()
                        };
                        match self.tyk(t) {
                            TyK::F32 => K::Int((f as f32).to_bits() as u128),
                            _ => K::Int(f.to_bits() as u128),
                        }
                    }
                    TyK::Other => {
                        while !matches!(self.c(), b',' | b')' | b'\n' | b' ' | b']' | b'}') {
                            self.i += 1
                        }
                        K::Bad
                    }
                    _ => {
                        let v = self.int();
                        let w = self.width(t);
                        let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                        K::Int((v as u128) & mask)
                    }
                }
            }
            b'[' | b'{' => {
                self.i += 1;
                let end = if self.s[self.i - 1] == b'[' { "]" } else { "}" };
                K::Agg(self.konst_list(end))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.c() == b'{' {
                    self.i += 1;
                    let v = self.konst_list("}");
                    self.expect(">");
                    K::Agg(v)
                } else {
                    K::Agg(self.konst_list(">"))
                }
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.c() != b'"' {
                    if self.c() == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(u8::from_str_radix(h, 16).unwrap());
                            self.i += 3;
                        }
                    } else {
                        v.push(self.c());
                        self.i += 1;
                    }
                }
                self.i += 1;
                K::Bytes(v)
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => K::Int(1),
                    b"false" => K::Int(0),
                    b"null" | b"zeroinitializer" => K::Zero,
                    b"undef" | b"poison" | b"none" => K::Undef,
                    b"splat" => {
                        self.expect("(");
                        let et = self.ty();
                        let k = self.konst(et);
                        self.expect(")");
                        match self.tyk(t) {
                            TyK::Vec(n, _) => K::Agg(vec![k; n as usize]),
                            _ => K::Bad,
                        }
                    }
                    b"getelementptr" => {
                        while self.eatw("inbounds") || self.eatw("nuw") || self.eatw("nusw") {}
                        if self.eatw("inrange") {
                            self.ws();
                            self.skip_balanced();
                        }
                        self.expect("(");
                        let mut cur = self.ty();
                        self.expect(",");
                        let pt = self.ty();
                        let base = self.konst(pt);
                        let mut off: i64 = 0;
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty();
                            let k = match self.konst(it) {
                                K::Int(v) => {
                                    let w = self.width(it);
                                    sext(v, w) as i64
                                }
                                K::Zero => 0,
                                _ => self.err("gep const index"),
                            };
                            if first {
                                off += k * self.m.types.size(cur) as i64;
                                first = false;
                            } else {
                                let (o, t2) = self.m.types.field_off(cur, 0.max(k) as usize);
                                off += o as i64;
                                cur = t2;
                            }
                        }
                        self.expect(")");
                        match base {
                            K::Sym(s, o) => K::Sym(s, o + off),
                            K::Zero => K::Int(off as u64 as u128),
                            K::Int(v) => K::Int((v as u64).wrapping_add(off as u64) as u128),
                            _ => K::Bad,
                        }
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"addrspacecast" => {
                        self.expect("(");
                        let t1 = self.ty();
                        let k = self.konst(t1);
                        self.expect("to");
                        let _t2 = self.ty();
                        self.expect(")");
                        if w == b"trunc" {
                            K::Bad
                        } else {
                            k
                        }
                    }
                    b"sub" | b"add" | b"xor" | b"mul" => {
                        while self.eatw("nuw") || self.eatw("nsw") {}
                        self.expect("(");
                        let t1 = self.ty();
                        self.konst(t1);
                        self.expect(",");
                        let t2 = self.ty();
                        self.konst(t2);
                        self.expect(")");
                        K::Bad
                    }
                    _ => self.err("const"),
                }
            }
        }
    }
    fn konst_list(&mut self, end: &str) -> Vec<K> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(t));
            if self.eat(end) {
                return v;
            }
            self.expect(",");
        }
    }
    fn reg(&mut self, n: Vec<u8>) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, t: Ty) -> Opd {
        self.ws();
        if self.c() == b'%' {
            self.i += 1;
            let n = self.name();
            Opd::Reg(self.reg(n))
        } else {
            let k = self.konst(t);
            match (&k, self.tyk(t)) {
                (K::Int(v), TyK::Int(w)) if w <= 64 => Opd::C(*v as u64),
                (K::Int(v), TyK::F32 | TyK::F64 | TyK::Ptr) => Opd::C(*v as u64),
                (K::Zero | K::Undef, TyK::Int(w)) if w <= 64 => Opd::C(0),
                (K::Zero | K::Undef, TyK::F32 | TyK::F64 | TyK::Ptr) => Opd::C(0),
                _ => Opd::K(Rc::new(k)),
            }
        }
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        (t, self.opd(t))
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            self.ws();
            if !(self.c().is_ascii_lowercase()) {
                return;
            }
            let w = self.peek_word();
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"bitcast"
                | b"trunc" | b"sub" | b"add" | b"xor" | b"splat" | b"asm" | b"void" | b"ptr" | b"float" | b"double" | b"half" | b"label" | b"metadata" | b"token"
                | b"x86_fp80" | b"fp128" => return,
                b"c" => return,
                _ => {}
            }
            if w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()) {
                return;
            }
            self.i += w.len();
            if w == b"align" || w == b"cc" {
                self.sp();
                if self.c().is_ascii_digit() {
                    self.int();
                    continue;
                }
            }
            if self.c() == b'(' {
                self.skip_balanced();
            }
        }
    }
    fn label(&mut self) -> u32 {
        self.ws();
        self.eatw("label");
        self.ws();
        if self.c() != b'%' {
            self.err("label")
        }
        self.i += 1;
        let n = self.name();
        self.blk(n)
    }
    fn blk(&mut self, n: Vec<u8>) -> u32 {
        if let Some(&b) = self.blks.get(&n) {
            return b;
        }
        let b = self.nblk;
        self.nblk += 1;
        self.blks.insert(n, b);
        b
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            if self.s[self.i] == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1
                }
            }
            self.i += 1
        }
    }
    fn flags(&mut self) {
        loop {
            match self.peek_word() {
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"inbounds" | b"nusw" | b"samesign" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract"
                | b"afn" | b"reassoc" | b"fast" | b"volatile" | b"atomic" | b"weak" => {
                    self.word();
                }
                _ => return,
            }
        }
    }
    fn body(&mut self, params: Vec<u32>, ret_ty: Ty) -> Body {
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut order: Vec<u32> = vec![];
        let mut cur: Option<u32> = None;
        loop {
            self.ws();
            if self.i >= self.s.len() || self.c() == b'}' {
                break;
            }
            // label?
            let save = self.i;
            if self.c() == b'"' || self.c().is_ascii_alphanumeric() || matches!(self.c(), b'_' | b'.' | b'$' | b'-') {
                let n = self.name();
                if self.c() == b':' {
                    self.i += 1;
                    let b = self.blk(n);
                    blocks.insert(b, Block { phis: vec![], insts: vec![] });
                    order.push(b);
                    cur = Some(b);
                    self.eol();
                    continue;
                }
                self.i = save;
            }
            if cur.is_none() {
                // entry block without label: numbered after the parameters
                let n = format!("{}", params.len()).into_bytes();
                let b = self.blk(n);
                blocks.insert(b, Block { phis: vec![], insts: vec![] });
                order.push(b);
                cur = Some(b);
            }
            let mut dst = NOREG;
            if self.c() == b'%' {
                self.i += 1;
                let n = self.name();
                dst = self.reg(n);
                self.expect("=");
            }
            self.ws();
            let b = cur.unwrap();
            let op = self.word();
            if op == b"phi" {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect("[");
                    let v = self.opd(t);
                    self.expect(",");
                    let l = self.label();
                    self.expect("]");
                    inc.push((l, v));
                    self.sp();
                    if self.c() == b',' {
                        let sv = self.i;
                        self.i += 1;
                        self.sp();
                        if self.c() == b'[' {
                            continue;
                        }
                        self.i = sv;
                    }
                    break;
                }
                self.eol();
                blocks.get_mut(&b).unwrap().phis.push((dst, inc));
                continue;
            }
            let k = self.inst(op);
            self.eol();
            blocks.get_mut(&b).unwrap().insts.push(Inst { dst, k });
        }
        // entry first
        let entry = order[0];
        let mut map: HashMap<u32, u32> = HashMap::new();
        let mut out = vec![];
        for b in &order {
            map.insert(*b, out.len() as u32);
            out.push(blocks.remove(b).unwrap());
        }
        let _ = entry;
        for b in out.iter_mut() {
            for p in b.phis.iter_mut() {
                for x in p.1.iter_mut() {
                    x.0 = map[&x.0];
                }
            }
            for i in b.insts.iter_mut() {
                match &mut i.k {
                    IK::Br(t) => *t = map[t],
                    IK::CondBr(_, a, c) => {
                        *a = map[a];
                        *c = map[c]
                    }
                    IK::Switch(_, _, d, l) => {
                        *d = map[d];
                        for x in l.iter_mut() {
                            x.1 = map[&x.1]
                        }
                    }
                    IK::Call(_, _, _, Some(n)) => *n = map[n],
                    _ => {}
                }
            }
        }
        Body { nregs: self.regs.len() as u32, params, blocks: out, ret_ty }
    }
    fn call(&mut self, invoke: bool) -> IK {
        self.flags();
        self.attrs();
        let rt = self.ty();
        self.ws();
        if self.c() == b'(' {
            self.skip_balanced();
            self.ws();
        }
        let callee;
        if self.c() == b'@' {
            self.i += 1;
            let n = self.name();
            callee = Callee::Fn(self.sym(n));
        } else if self.peek_word() == b"asm" {
            self.word();
            while self.eatw("sideeffect") || self.eatw("alignstack") || self.eatw("inteldialect") || self.eatw("unwind") {}
            self.expect("\"");
            let st = self.i;
            while self.c() != b'"' {
                self.i += 1
            }
            let a = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            self.expect(",");
            self.expect("\"");
            while self.c() != b'"' {
                self.i += 1
            }
            self.i += 1;
            callee = Callee::Asm(a);
        } else {
            let pt = self.m.types.get(TyK::Ptr);
            callee = Callee::Ptr(self.opd(pt));
        }
        self.expect("(");
        let mut args = vec![];
        if !self.eat(")") {
            loop {
                self.ws();
                let t = self.ty();
                if self.tyk(t) == TyK::Other {
                    // metadata and the like
                    self.attrs();
                    let mut d = 0;
                    loop {
                        match self.c() {
                            b'(' => d += 1,
                            b')' if d == 0 => break,
                            b')' => d -= 1,
                            b',' if d == 0 => break,
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push((t, Opd::K(Rc::new(K::Bad))));
                } else {
                    self.attrs();
                    let o = self.opd(t);
                    args.push((t, o));
                }
                if self.eat(")") {
                    break;
                }
                self.expect(",");
            }
        }
        let mut next = None;
        if invoke {
            // ... to label %x unwind label %y
            loop {
                self.ws();
                if self.eatw("to") {
                    break;
                }
                if self.c() == b'[' {
                    self.skip_balanced();
                } else {
                    self.i += 1;
                }
            }
            next = Some(self.label());
            self.expect("unwind");
            self.label();
        }
        IK::Call(callee, args, rt, next)
    }
    fn inst(&mut self, op: &[u8]) -> IK {
        let bin = match op {
            b"add" => Some(Bin::Add),
            b"sub" => Some(Bin::Sub),
            b"mul" => Some(Bin::Mul),
            b"udiv" => Some(Bin::UDiv),
            b"sdiv" => Some(Bin::SDiv),
            b"urem" => Some(Bin::URem),
            b"srem" => Some(Bin::SRem),
            b"shl" => Some(Bin::Shl),
            b"lshr" => Some(Bin::LShr),
            b"ashr" => Some(Bin::AShr),
            b"and" => Some(Bin::And),
            b"or" => Some(Bin::Or),
            b"xor" => Some(Bin::Xor),
            b"fadd" => Some(Bin::FAdd),
            b"fsub" => Some(Bin::FSub),
            b"fmul" => Some(Bin::FMul),
            b"fdiv" => Some(Bin::FDiv),
            b"frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let t = self.ty();
            let x = self.opd(t);
            self.expect(",");
            let y = self.opd(t);
            return IK::Bin(b, t, x, y);
        }
        let cast = match op {
            b"trunc" => Some(Cast::Trunc),
            b"zext" => Some(Cast::ZExt),
            b"sext" => Some(Cast::SExt),
            b"fptrunc" => Some(Cast::FPTrunc),
            b"fpext" => Some(Cast::FPExt),
            b"fptoui" => Some(Cast::FPToUI),
            b"fptosi" => Some(Cast::FPToSI),
            b"uitofp" => Some(Cast::UIToFP),
            b"sitofp" => Some(Cast::SIToFP),
            b"ptrtoint" => Some(Cast::PtrToInt),
            b"inttoptr" => Some(Cast::IntToPtr),
            b"bitcast" => Some(Cast::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags();
            let t = self.ty();
            let x = self.opd(t);
            self.expect("to");
            let t2 = self.ty();
            return IK::Cast(c, t, x, t2);
        }
        match op {
            b"tail" | b"musttail" | b"notail" => {
                self.expect("call");
                self.call(false)
            }
            b"call" => self.call(false),
            b"invoke" => self.call(true),
            b"fneg" => {
                self.flags();
                let t = self.ty();
                let x = self.opd(t);
                IK::FNeg(t, x)
            }
            b"icmp" => {
                self.flags();
                let p = match self.word() {
                    b"eq" => 0,
                    b"ne" => 1,
                    b"ugt" => 2,
                    b"uge" => 3,
                    b"ult" => 4,
                    b"ule" => 5,
                    b"sgt" => 6,
                    b"sge" => 7,
                    b"slt" => 8,
                    b"sle" => 9,
                    _ => self.err("icmp"),
                };
                let t = self.ty();
                let x = self.opd(t);
                self.expect(",");
                let y = self.opd(t);
                IK::ICmp(p, t, x, y)
            }
            b"fcmp" => {
                self.flags();
                let p = match self.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    b"true" => 15,
                    _ => self.err("fcmp"),
                };
                let t = self.ty();
                let x = self.opd(t);
                self.expect(",");
                let y = self.opd(t);
                IK::FCmp(p, t, x, y)
            }
            b"select" => {
                self.flags();
                let (ct, c) = self.tyopd();
                self.expect(",");
                let (t, a) = self.tyopd();
                self.expect(",");
                let (_, b) = self.tyopd();
                let isvec = matches!(self.tyk(ct), TyK::Vec(..));
                IK::Select(c, t, a, b, isvec)
            }
            b"alloca" => {
                self.flags();
                let t = self.ty();
                let sz = self.m.types.size(t);
                let mut n = Opd::C(1);
                self.sp();
                if self.c() == b',' {
                    let sv = self.i;
                    self.i += 1;
                    if self.peek_word() == b"align" {
                        self.i = sv;
                    } else {
                        let (_, o) = self.tyopd();
                        n = o;
                    }
                }
                IK::Alloca(sz, n)
            }
            b"load" => {
                self.flags();
                let t = self.ty();
                self.expect(",");
                let (_, p) = self.tyopd();
                IK::Load(t, p)
            }
            b"store" => {
                self.flags();
                let (t, v) = self.tyopd();
                self.expect(",");
                let (_, p) = self.tyopd();
                IK::Store(t, v, p)
            }
            b"getelementptr" => {
                self.flags();
                let mut cur = self.ty();
                self.expect(",");
                let (pt, base) = self.tyopd();
                if matches!(self.tyk(pt), TyK::Vec(..)) {
                    self.eol();
                    return IK::VaArg;
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                loop {
                    self.sp();
                    if self.c() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.sp();
                    if self.c() == b'!' {
                        break;
                    }
                    let (it, o) = self.tyopd();
                    let w = self.width(it);
                    if matches!(self.tyk(it), TyK::Vec(..)) {
                        self.eol();
                        return IK::VaArg;
                    }
                    if first {
                        let sz = self.m.types.size(cur);
                        match o {
                            Opd::C(v) => off = off.wrapping_add((sext(v as u128, w) as i64).wrapping_mul(sz as i64)),
                            o => dynv.push((o, sz, w)),
                        }
                        first = false;
                    } else {
                        match o {
                            Opd::C(v) => {
                                if let TyK::Struct(..) = self.tyk(cur) {
                                    let (oo, t2) = self.m.types.field_off(cur, v as usize);
                                    off += oo as i64;
                                    cur = t2;
                                } else {
                                    let (_, t2) = self.m.types.field_off(cur, 0);
                                    let sz = self.m.types.size(t2);
                                    off = off.wrapping_add((sext(v as u128, w) as i64).wrapping_mul(sz as i64));
                                    cur = t2;
                                }
                            }
                            o => {
                                let (_, t2) = self.m.types.field_off(cur, 0);
                                let sz = self.m.types.size(t2);
                                dynv.push((o, sz, w));
                                cur = t2;
                            }
                        }
                    }
                }
                IK::Gep(base, off, dynv)
            }
            b"extractvalue" => {
                let (_, o) = self.tyopd();
                IK::ExtractValue(o, self.idxs())
            }
            b"insertvalue" => {
                let (t, a) = self.tyopd();
                self.expect(",");
                let (_, b) = self.tyopd();
                IK::InsertValue(a, t, b, self.idxs())
            }
            b"extractelement" => {
                let (_, a) = self.tyopd();
                self.expect(",");
                let (_, b) = self.tyopd();
                IK::ExtractElement(a, b)
            }
            b"insertelement" => {
                let (t, a) = self.tyopd();
                self.expect(",");
                let (_, b) = self.tyopd();
                self.expect(",");
                let (_, c) = self.tyopd();
                IK::InsertElement(a, t, b, c)
            }
            b"shufflevector" => {
                let (t, a) = self.tyopd();
                self.expect(",");
                let (_, b) = self.tyopd();
                self.expect(",");
                let (mt, m) = self.tyopd();
                let n = match self.tyk(t) {
                    TyK::Vec(n, _) => n,
                    _ => 0,
                };
                let mn = match self.tyk(mt) {
                    TyK::Vec(n, _) => n,
                    _ => 0,
                };
                let idx = match m {
                    Opd::K(k) => match &*k {
                        K::Agg(v) => v
                            .iter()
                            .map(|x| match x {
                                K::Int(v) => *v as i32,
                                K::Zero => 0,
                                _ => -1,
                            })
                            .collect(),
                        K::Zero => vec![0; mn as usize],
                        _ => vec![-1; mn as usize],
                    },
                    _ => self.err("shuffle mask"),
                };
                IK::Shuffle(a, b, idx, n)
            }
            b"atomicrmw" => {
                self.flags();
                let o = String::from_utf8_lossy(self.word()).to_string();
                let (_, p) = self.tyopd();
                self.expect(",");
                let (t, v) = self.tyopd();
                IK::AtomicRmw(o, t, p, v)
            }
            b"cmpxchg" => {
                self.flags();
                let (_, p) = self.tyopd();
                self.expect(",");
                let (t, e) = self.tyopd();
                self.expect(",");
                let (_, n) = self.tyopd();
                IK::CmpXchg(t, p, e, n)
            }
            b"freeze" => {
                let (_, o) = self.tyopd();
                IK::Freeze(o)
            }
            b"fence" => IK::Fence,
            b"br" => {
                if self.peek_word() == b"label" {
                    IK::Br(self.label())
                } else {
                    let (_, c) = self.tyopd();
                    self.expect(",");
                    let a = self.label();
                    self.expect(",");
                    let b = self.label();
                    IK::CondBr(c, a, b)
                }
            }
            b"switch" => {
                let (t, o) = self.tyopd();
                self.expect(",");
                let d = self.label();
                self.expect("[");
                let mut l = vec![];
                while !self.eat("]") {
                    let t2 = self.ty();
                    let k = match self.konst(t2) {
                        K::Int(v) => v,
                        _ => self.err("switch"),
                    };
                    self.expect(",");
                    l.push((k, self.label()));
                }
                IK::Switch(t, o, d, l)
            }
            b"ret" => {
                if self.eatw("void") {
                    IK::Ret(None)
                } else {
                    let (_, o) = self.tyopd();
                    IK::Ret(Some(o))
                }
            }
            b"unreachable" => IK::Unreachable,
            b"resume" => IK::Resume,
            b"landingpad" => {
                self.eol();
                // clauses on following, deeper indented lines
                loop {
                    let mut j = self.i;
                    if j < self.s.len() && self.s[j] == b'\n' {
                        j += 1;
                        let st = j;
                        while j < self.s.len() && self.s[j] == b' ' {
                            j += 1
                        }
                        if j - st >= 8 {
                            self.i = j;
                            self.eol();
                            continue;
                        }
                    }
                    break;
                }
                IK::LandingPad
            }
            b"va_arg" => IK::VaArg,
            _ => self.err(&format!("instruction {}", String::from_utf8_lossy(op))),
        }
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop {
            self.sp();
            if self.c() != b',' {
                break;
            }
            let sv = self.i;
            self.i += 1;
            self.sp();
            if !self.c().is_ascii_digit() {
                self.i = sv;
                break;
            }
            v.push(self.int() as u32);
        }
        v
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

impl Module {
    pub fn parse(text: String) -> Module {
        let mut tabs = ModTabs::default();
        let mut funcs: Vec<Func> = vec![];
        let mut globals: Vec<Global> = vec![];
        let bytes: &[u8] = text.as_bytes();
        // first pass: index
        let mut i = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        while i < bytes.len() {
            let e = memchr(bytes, i, b'\n');
            let line = &bytes[i..e];
            if line.starts_with(b"define") {
                // find end: line "}"
                let mut j = e + 1;
                loop {
                    let e2 = memchr(bytes, j, b'\n');
                    if &bytes[j..e2] == b"}" {
                        j = e2;
                        break;
                    }
                    j = e2 + 1;
                    if j >= bytes.len() {
                        break;
                    }
                }
                let name = fname(line);
                add_func(&mut tabs, &mut funcs, name, Some((i, j)));
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare") {
                let name = fname(line);
                add_func(&mut tabs, &mut funcs, name, None);
            } else if line.starts_with(b"@") {
                gl.push((i, e));
            } else if line.starts_with(b"%") {
                // named type
                let l = String::from_utf8_lossy(line).to_string();
                if let Some(p) = l.find(" = type ") {
                    let n = l[1..p].trim_matches('"').to_string();
                    let mut p2 = P { s: bytes, i: i + p + 8, m: &mut tabs, regs: HashMap::new(), blks: HashMap::new(), nblk: 0 };
                    let t = p2.ty();
                    tabs.types.named.insert(n, t);
                }
            }
            i = e + 1;
        }
        // globals: declare symbols first
        let mut aliases: Vec<(u32, u32)> = vec![];
        for &(st, en) in &gl {
            let mut p = P { s: &bytes[..en], i: st + 1, m: &mut tabs, regs: HashMap::new(), blks: HashMap::new(), nblk: 0 };
            let n = p.name();
            let s = p.sym(n);
            let line = &bytes[st..en];
            let ltxt = String::from_utf8_lossy(line).to_string();
            if ltxt.contains(" = extern_weak ") {
                continue;
            }
            let eqp = ltxt.find(" = ").unwrap();
            let head: String = ltxt[eqp..].chars().take(60).collect();
            if head.contains(" alias ") {
                let at = ltxt.rfind("ptr @").unwrap();
                p.i = st + at + 5;
                let tn = p.name();
                let ts = p.sym(tn);
                aliases.push((s, ts));
                continue;
            }
            let gi = globals.len() as u32;
            let name = p.m.sym_list[s as usize].0.clone();
            p.m.sym_list[s as usize].1 = Some(Sym::Global(gi));
            p.expect("=");
            let mut external = false;
            let constant;
            loop {
                let w = p.word();
                match w {
                    b"global" => {
                        constant = false;
                        break;
                    }
                    b"constant" => {
                        constant = true;
                        break;
                    }
                    b"external" | b"extern_weak" => external = true,
                    b"alias" => {
                        // alias: treat as bad external
                        external = true;
                        constant = false;
                        break;
                    }
                    b"" => p.err("global"),
                    _ => {
                        p.sp();
                        if p.c() == b'(' {
                            p.skip_balanced()
                        }
                    }
                }
            }
            let t = p.ty();
            let size = p.m.types.size(t);
            let init = if external { K::Zero } else { p.konst(t) };
            globals.push(Global { name, size, init, ty: t, external, constant });
        }
        for (a, t) in aliases {
            tabs.sym_list[a as usize].1 = tabs.sym_list[t as usize].1;
        }
        let ModTabs { types, syms, sym_list } = tabs;
        Module { text, types, syms, sym_list, funcs, globals }
    }
    pub fn body(&mut self, f: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Some(b.clone());
        }
        let (st, en) = self.funcs[f as usize].text?;
        let mut tabs = ModTabs {
            types: std::mem::take(&mut self.types),
            syms: std::mem::take(&mut self.syms),
            sym_list: std::mem::take(&mut self.sym_list),
        };
        let text = std::mem::take(&mut self.text);
        let b = {
            let mut p = P { s: &text.as_bytes()[..en], i: st + 6, m: &mut tabs, regs: HashMap::new(), blks: HashMap::new(), nblk: 0 };
            // linkage etc up to type
            loop {
                p.ws();
                let w = p.peek_word();
                match w {
                    b"internal" | b"private" | b"weak" | b"weak_odr" | b"linkonce" | b"linkonce_odr" | b"hidden" | b"protected" | b"dso_local" | b"available_externally"
                    | b"external" | b"default" | b"dllexport" | b"fastcc" | b"coldcc" | b"ccc" => {
                        p.word();
                    }
                    _ => break,
                }
            }
            p.attrs();
            let rt = p.ty();
            p.expect("@");
            p.name();
            p.expect("(");
            let mut params = vec![];
            let mut unnamed = 0;
            if !p.eat(")") {
                loop {
                    if p.eat("...") {
                        p.expect(")");
                        break;
                    }
                    let t = p.ty();
                    if p.tyk(t) == TyK::Other {
                        p.i = memchr(p.s, p.i, b'\n');
                    }
                    p.attrs();
                    p.ws();
                    if p.c() == b'%' {
                        p.i += 1;
                        let n = p.name();
                        let r = p.reg(n);
                        params.push(r);
                    } else {
                        let r = p.reg(format!("{unnamed}").into_bytes());
                        params.push(r);
                    }
                    unnamed += 1;
                    if p.eat(")") {
                        break;
                    }
                    p.expect(",");
                }
            }
            // to '{' at end of line
            while !(p.c() == b'{' && p.s.get(p.i + 1) == Some(&b'\n')) {
                p.i += 1
            }
            p.i += 1;
            p.body(params, rt)
        };
        self.text = text;
        self.types = tabs.types;
        self.syms = tabs.syms;
        self.sym_list = tabs.sym_list;
        let b = Rc::new(b);
        self.funcs[f as usize].body = Some(b.clone());
        Some(b)
    }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1
    }
    i
}
fn fname(line: &[u8]) -> String {
    let mut i = 0;
    while line[i] != b'@' {
        i += 1
    }
    i += 1;
    if line[i] == b'"' {
        let st = i + 1;
        i += 1;
        while line[i] != b'"' {
            i += 1
        }
        String::from_utf8_lossy(&line[st..i]).to_string()
    } else {
        let st = i;
        while line[i] != b'(' {
            i += 1
        }
        String::from_utf8_lossy(&line[st..i]).to_string()
    }
}
fn add_func(t: &mut ModTabs, funcs: &mut Vec<Func>, name: String, text: Option<(usize, usize)>) {
    let fi = funcs.len() as u32;
    let si = match t.syms.get(&name) {
        Some(&s) => s,
        None => {
            let s = t.sym_list.len() as u32;
            t.sym_list.push((name.clone(), None));
            t.syms.insert(name.clone(), s);
            s
        }
    };
    t.sym_list[si as usize].1 = Some(Sym::Func(fi));
    let pretty = demangle(&name);
    funcs.push(Func { name, pretty, text, body: None });
}
