//! Native replay: runs one harness entry on concrete inputs.
//! usage: replay ENTRY ARG,ARG INPUTS.txt   (one "kind value" per line)
use std::io::Write;
static mut IN: Vec<(u8, u64)> = Vec::new();
static mut POS: usize = 0;
static mut NOTES: bool = false;
static mut FAILED: bool = false;
#[allow(static_mut_refs)]
fn next(kind: u8) -> u64 {
    unsafe {
        if POS >= IN.len() {
            // inputs beyond the counterexample are free
            POS += 1;
            return 0;
        }
        let (k, v) = IN[POS];
        POS += 1;
        if k != kind {
            println!("DIVERGED input {} kind {} expected {}", POS, k, kind);
            std::process::exit(5);
        }
        v
    }
}
#[no_mangle]
pub extern "C" fn vx_int(bits: u32) -> u64 {
    let v = next(0);
    if bits >= 64 { v } else { v & ((1 << bits) - 1) }
}
#[no_mangle]
pub extern "C" fn vx_float() -> f32 {
    f32::from_bits(next(1) as u32)
}
#[no_mangle]
pub extern "C" fn vx_assume_(c: u8) {
    if c == 0 {
        println!("ASSUME violated");
        std::process::exit(if unsafe { FAILED } { 1 } else { 4 });
    }
}
#[no_mangle]
pub extern "C" fn vx_check_(c: u8, tag: u32) {
    if c == 0 {
        println!("CHECK FAILED {tag}");
        std::io::stdout().flush().unwrap();
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn vx_choose_(n: u32) -> u32 {
    let v = next(2) as u32;
    if v >= n { 0 } else { v }
}
#[no_mangle]
pub extern "C" fn vx_cover_(_tag: u32) {}
#[no_mangle]
pub extern "C" fn vx_note_(tag: u32, v: u64) {
    if unsafe { NOTES } {
        println!("NOTE {tag} {v}");
    }
}
#[no_mangle]
pub extern "C" fn vx_fork_(c: u8) -> u8 {
    c
}
#[no_mangle]
pub extern "C" fn vx_concrete_(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn vx_flags_(_v: u64) {}
#[no_mangle]
pub extern "C" fn vx_grid_(_n: u32) {}
#[no_mangle]
pub extern "C" fn vx_root_(_x: f32) {}
#[no_mangle]
pub extern "C" fn vx_engine_() -> u32 {
    0
}
#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect();
    if let Some(f) = a.get(3) {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() >= 2 {
                unsafe { IN.push((p[0].parse().unwrap(), p[1].parse().unwrap())) }
            }
        }
    }
    unsafe { NOTES = std::env::var("NOTES").is_ok() };
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map_or(String::new(), |l| format!("{}:{}:{}", l.file(), l.line(), l.column()));
        println!("PANIC {l} {}", i.to_string().replace('\n', " "));
        std::io::stdout().flush().unwrap();
        std::process::exit(101);
    }));
    if !harness::dispatch(&a[1], &args) {
        println!("no entry {}", a[1]);
        std::process::exit(6);
    }
    println!("OK");
}
