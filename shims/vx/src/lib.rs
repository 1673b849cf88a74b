//! Symbolic-input interface.  The functions below are undefined in the IR
//! build (the engine interprets them) and are provided by the replay runtime
//! in the native build.
extern "C" {
    /// fresh integer in [0, 2^bits)
    fn vx_int(bits: u32) -> u64;
    fn vx_float() -> f32;
    fn vx_assume_(c: u8);
    fn vx_check_(c: u8, tag: u32);
    fn vx_choose_(n: u32) -> u32;
    fn vx_cover_(tag: u32);
    fn vx_note_(tag: u32, v: u64);
    fn vx_fork_(c: u8) -> u8;
    fn vx_concrete_(v: u64) -> u64;
    fn vx_flags_(v: u64);
    fn vx_engine_() -> u32;
}
#[inline(always)]
pub fn bits(n: u32) -> u64 {
    unsafe { vx_int(n) }
}
/// fresh usize in lo..=hi (no fork)
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    let d = (hi - lo) as u64;
    let b = 64 - d.leading_zeros();
    if b == 0 {
        return lo;
    }
    let v = unsafe { vx_int(b) };
    assume(v <= d);
    lo + v as usize
}
#[inline(always)]
pub fn boolean() -> bool {
    unsafe { vx_int(1) != 0 }
}
#[inline(always)]
pub fn float() -> f32 {
    unsafe { vx_float() }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vx_assume_(c as u8) }
}
/// The property: must hold on every path.
#[inline(always)]
pub fn check(c: bool, tag: u32) {
    unsafe { vx_check_(c as u8, tag) }
}
/// Forking choice among n alternatives.
#[inline(always)]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { vx_choose_(n as u32) as usize }
}
#[inline(always)]
pub fn cover(tag: u32) {
    unsafe { vx_cover_(tag) }
}
#[inline(always)]
pub fn note(tag: u32, v: u64) {
    unsafe { vx_note_(tag, v) }
}
/// Fork on every feasible value of v; the result is concrete.
#[inline(always)]
pub fn concrete(v: usize) -> usize {
    unsafe { vx_concrete_(v as u64) as usize }
}
/// Fork on the truth value of c.
#[inline(always)]
pub fn fork(c: bool) -> bool {
    unsafe { vx_fork_(c as u8) != 0 }
}
/// Violation: the scheduler found that nothing can happen any more.
pub const TAG_DEADLOCK: u32 = 9001;

/// bit 0: panics are not violations from here on (the path just ends)
#[inline(always)]
pub fn flags(v: u64) {
    unsafe { vx_flags_(v) }
}
/// tolerance: `loose` under symbolic execution, `tight` in the native replay,
/// so that a violation found over the reals survives rounding
#[inline(always)]
pub fn tol(loose: f32, tight: f32) -> f32 {
    if unsafe { vx_engine_() } != 0 {
        loose
    } else {
        tight
    }
}
/// declares entry points
#[macro_export]
macro_rules! entry {
    ($n:ident($a:ident,$b:ident,$c:ident,$d:ident) $body:block) => {
        #[no_mangle]
        #[allow(unused_variables)]
        pub extern "C" fn $n($a: usize, $b: usize, $c: usize, $d: usize) $body
    };
}
#[macro_export]
macro_rules! entries {
    ($($p:path),* $(,)?) => {
        pub fn entries() -> Vec<(&'static str, extern "C" fn(usize, usize, usize, usize))> {
            vec![$((stringify!($p).rsplit(':').next().unwrap().trim(), $p as extern "C" fn(usize, usize, usize, usize))),*]
        }
    };
}
extern "C" {
    fn vx_grid_(n: u32);
    fn vx_root_(x: f32);
}
/// tells the engine which sector borders matter for atan2
#[inline(always)]
pub fn grid(n: usize) {
    unsafe { vx_grid_(n as u32) }
}
/// suggests a value for later square roots (the engine uses it only where the solver proves it right)
#[inline(always)]
pub fn root(x: f32) {
    unsafe { vx_root_(x) }
}
/// (x, y) is not within eps (relative) of a border between n equal sectors
pub fn off_border(x: f32, y: f32, n: usize, eps: f32) -> bool {
    let mut ok = true;
    let ax = if x < 0.0 { -x } else { x };
    let ay = if y < 0.0 { -y } else { y };
    let m = (ax + ay) * eps;
    for k in 0..n {
        let b = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
        let cr = y * b.cos() as f32 - x * b.sin() as f32;
        let dot = y * b.sin() as f32 + x * b.cos() as f32;
        let acr = if cr < 0.0 { -cr } else { cr };
        ok = ok & ((acr > m) | (dot < 0.0));
    }
    ok & (ax + ay > 0.01)
}

/// path of a file only this run uses
pub fn scratch(name: &str) -> String {
    if unsafe { vx_engine_() } != 0 {
        let mut s = String::from("/vx/");
        s.push_str(name);
        s
    } else {
        let mut d = std::env::temp_dir();
        d.push(format!("vx-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d.push(name);
        d.to_string_lossy().into_owned()
    }
}
/// removes what `scratch` made
pub fn scratch_done() {
    if unsafe { vx_engine_() } == 0 {
        let mut d = std::env::temp_dir();
        d.push(format!("vx-replay-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
    }
}
