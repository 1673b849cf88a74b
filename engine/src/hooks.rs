use crate::exec::*;
type H = Option<(fn(&mut Vm, &[Val], u32) -> R<Val>, u32)>;
fn suffix_w(n: &str) -> u32 {
    // width of the last type suffix, e.g. ".i64", ".f32", ".v8f32"
    let s = n.rsplit('.').next().unwrap();
    let t = s.trim_start_matches('v');
    let i = t.find(|c| c == 'i' || c == 'f').unwrap_or(0);
    t[i + 1..].parse().unwrap_or(0)
}
pub fn find(name: &str, pretty: &str) -> H {
    let w = || suffix_w(name);
    if let Some(r) = name.strip_prefix("llvm.") {
        let f = |op: u32| -> H { Some((h::fun, op << 8 | w())) };
        let pre = |p: &str| r.starts_with(p);
        if pre("lifetime") || pre("experimental.noalias") || pre("assume") || pre("dbg") || pre("invariant") || pre("x86.sse2.pause") || pre("prefetch") {
            return Some((h::nop, 0));
        }
        if pre("memcpy") || pre("memmove") {
            return Some((h::memcpy, 0));
        }
        if pre("memset") {
            return Some((h::memset, 0));
        }
        for (i, p) in ["uadd.with", "usub.with", "umul.with", "sadd.with", "ssub.with", "smul.with"].iter().enumerate() {
            if pre(p) {
                return Some((h::overflow, (i as u32) << 8 | w()));
            }
        }
        for (i, p) in ["umax", "umin", "smax", "smin", "uadd.sat", "usub.sat", "abs"].iter().enumerate() {
            if pre(p) {
                return Some((h::iminmax, (i as u32) << 8 | w()));
            }
        }
        for (i, p) in ["ctlz", "cttz", "ctpop", "bswap", "bitreverse"].iter().enumerate() {
            if pre(p) {
                return Some((h::bits, (i as u32) << 8 | w()));
            }
        }
        if pre("fshl") {
            return Some((h::fsh, w()));
        }
        if pre("fshr") {
            return Some((h::fsh, 256 | w()));
        }
        for (i, p) in ["sqrt", "fabs", "floor", "ceil", "trunc", "round.", "maxnum", "minnum", "fma", "sin", "cos", "exp.", "log2", "log.", "pow.", "powi"].iter().enumerate() {
            if pre(p) {
                if *p == "powi" {
                    let ww = if r.contains("f32") { 32 } else { 64 };
                    return Some((h::fun, 15 << 8 | ww));
                }
                return f(i as u32);
            }
        }
        if pre("copysign") {
            return f(17);
        }
        if pre("log10") {
            return f(18);
        }
        if pre("roundeven") || pre("rint") || pre("nearbyint") {
            return f(23);
        }
        if pre("fmuladd") {
            return f(8);
        }
        if pre("fptoui.sat") || pre("fptosi.sat") {
            // llvm.fptoui.sat.i64.f32
            let p: Vec<&str> = r.split('.').collect();
            let tw: u32 = p[2][1..].parse().unwrap_or(0);
            let fw: u32 = p[3][1..].parse().unwrap_or(0);
            return Some((h::fptosat, (pre("fptosi") as u32) << 16 | tw << 8 | fw));
        }
        if pre("is.fpclass") {
            return Some((h::fpclass, w()));
        }
        if pre("vector.reduce.add") {
            return Some((h::reduce_add, w()));
        }
        if pre("vector.reduce.or") {
            return Some((h::reduce_or, w()));
        }
        if pre("threadlocal.address") || pre("ptrmask") || pre("launder") || pre("expect") {
            return Some((h::first, 0));
        }
        if pre("trap") || pre("debugtrap") {
            return Some((h::panic, 2));
        }
        if pre("load.relative") {
            return Some((h::load_relative, 0));
        }
        if pre("x86.xgetbv") {
            return Some((h::none, 0));
        }
        return None;
    }
    match name {
        "__rust_alloc" | "__rdl_alloc" | "__rg_alloc" | "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => return Some((h::alloc, 0)),
        "__rust_dealloc" | "__rdl_dealloc" | "free" => return Some((h::free, 0)),
        "__rust_realloc" | "__rdl_realloc" => return Some((h::realloc, 3)),
        "malloc" => return Some((h::alloc, 0)),
        "calloc" => return Some((h::calloc, 0)),
        "realloc" => return Some((h::realloc, 1)),
        "posix_memalign" => return Some((h::posix_memalign, 0)),
        "bcmp" => return Some((h::bcmp, 0)),
        "memcmp" => return Some((h::bcmp, 1)),
        "strlen" => return Some((h::strlen, 0)),
        "syscall" => return Some((h::getrandom, 0)),
        "__errno_location" => return Some((h::errno, 0)),
        "open64" | "open" => return Some((h::open, 0)),
        "write" => return Some((h::fwrite, 0)),
        "read" => return Some((h::fread, 0)),
        "lseek64" | "lseek" => return Some((h::lseek, 0)),
        "close" => return Some((h::none, 0)),
        "statx" | "fstat64" | "stat64" | "lstat64" | "fstat" => return Some((h::nosys, 0)),
        "getenv" => return Some((h::none, 0)),
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "isatty" => return Some((h::none, 0)),
        "__cxa_thread_atexit_impl" => return Some((h::none, 0)),
        "abort" => return Some((h::abort, 0)),
        "atan2f" => return Some((h::fun, 16 << 8 | 32)),
        "atan2" => return Some((h::fun, 16 << 8 | 64)),
        "acosf" => return Some((h::fun, 20 << 8 | 32)),
        "asinf" => return Some((h::fun, 21 << 8 | 32)),
        "atanf" => return Some((h::fun, 22 << 8 | 32)),
        "tanf" => return Some((h::fun, 19 << 8 | 32)),
        "vx_int" => return Some((h::vx_int, 0)),
        "vx_float" => return Some((h::vx_float, 0)),
        "vx_assume_" => return Some((h::vx_assume, 0)),
        "vx_check_" => return Some((h::vx_check, 0)),
        "vx_choose_" => return Some((h::vx_choose, 0)),
        "vx_cover_" => return Some((h::vx_cover, 0)),
        "vx_note_" => return Some((h::vx_note, 0)),
        "vx_fork_" => return Some((h::vx_fork, 0)),
        "vx_concrete_" => return Some((h::vx_concrete, 0)),
        "vx_root_" => return Some((h::vx_root, 0)),
        "vx_grid_" => return Some((h::vx_grid, 0)),
        "vx_flags_" => return Some((h::vx_flags, 0)),
        "vx_engine_" => return Some((h::tol, 0)),
        _ => {}
    }
    let p = pretty;
    if p.starts_with("core::panicking::")
        || p.starts_with("std::panicking::begin_panic")
        || p.starts_with("std::panicking::rust_panic")
        || p.contains("::unwrap_failed")
        || p.contains("::expect_failed")
        || p.starts_with("alloc::raw_vec::handle_error")
        || p.starts_with("alloc::alloc::handle_alloc_error")
        || p.starts_with("core::slice::index::slice_")
        || p.starts_with("core::cell::panic_already")
        || p == "rust_begin_unwind"
        || p.starts_with("std::process::abort")
    {
        return Some((h::panic, 0));
    }
    if p == "std::io::stdio::_print" || p == "std::io::stdio::_eprint" {
        return Some((h::nop, 0));
    }
    if p.starts_with("std::sys::thread_local::destructors") || p.starts_with("std::sys::thread_local::guard") || p.contains("thread_local::destructors::linux_like::register") {
        return Some((h::nop, 0));
    }
    if p.starts_with("std_detect::detect::") && p.contains("detect_and_initialize") {
        return Some((h::none, 0));
    }
    None
}
