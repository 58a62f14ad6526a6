//! Harness runtime. Under the symbolic executor every `__sym_*` function is an intrinsic of the engine;
//! compiled natively they replay one recorded model (a hex string in $HV_REPLAY) and print a transcript.
use std::cell::RefCell;

thread_local! {
    static REPLAY: RefCell<(Vec<u8>, usize, bool)> = RefCell::new((vec![], 0, false));
}
fn load() {
    REPLAY.with(|r| {
        let mut r = r.borrow_mut();
        if !r.2 {
            r.2 = true;
            let h = std::env::var("HV_REPLAY").unwrap_or_default();
            let h = h.trim();
            r.0 = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        }
    })
}
fn st<'a>(p: *const u8, n: usize) -> &'a str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_bytes(p: *mut u8, n: usize, lo: u8, hi: u8, _name: *const u8, _nl: usize) {
    load();
    REPLAY.with(|r| {
        let mut r = r.borrow_mut();
        for i in 0..n {
            let k = r.1;
            let v = r.0.get(k).copied().unwrap_or(lo).clamp(lo, hi);
            unsafe { *p.add(i) = v };
            r.1 += 1;
        }
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(c: bool) {
    if !c {
        println!("ASSUME-FAIL");
        std::process::exit(0);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assert(c: bool, l: *const u8, n: usize) {
    if !c {
        println!("ASSERT-FAIL {}", st(l, n));
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_observe(p: *const u8, n: usize, l: *const u8, ln: usize) {
    println!("OBS {} {}", st(l, ln), hex(unsafe { std::slice::from_raw_parts(p, n) }));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_cover(l: *const u8, n: usize) {
    println!("COVER {}", st(l, n));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_concretize(x: u64) -> u64 {
    // opaque: callers must use the returned value, not the argument
    std::hint::black_box(x)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_branch(c: bool) -> bool {
    std::hint::black_box(c)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_mode() -> u32 {
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_log(p: *const u8, n: usize) {
    if std::env::var("HV_LOG").is_ok() { eprintln!("LOG {}", st(p, n)); }
}

// ---- safe wrappers used by the harnesses ----
pub fn bytes_in<const N: usize>(lo: u8, hi: u8, name: &str) -> [u8; N] {
    let mut a = [lo; N];
    __sym_bytes(a.as_mut_ptr(), N, lo, hi, name.as_ptr(), name.len());
    a
}
pub fn fill_in(b: &mut [u8], lo: u8, hi: u8, name: &str) {
    __sym_bytes(b.as_mut_ptr(), b.len(), lo, hi, name.as_ptr(), name.len());
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    bytes_in::<N>(0, 255, name)
}
pub fn u8_in(lo: u8, hi: u8, name: &str) -> u8 {
    bytes_in::<1>(lo, hi, name)[0]
}
pub fn any_u8(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn any_bool(name: &str) -> bool { u8_in(0, 1, name) == 1 }
pub fn any_u32(name: &str) -> u32 { u32::from_le_bytes(bytes::<4>(name)) }
pub fn any_i32(name: &str) -> i32 { i32::from_le_bytes(bytes::<4>(name)) }
pub fn any_u64(name: &str) -> u64 { u64::from_le_bytes(bytes::<8>(name)) }
pub fn any_i64(name: &str) -> i64 { i64::from_le_bytes(bytes::<8>(name)) }
/// One of `n` alternatives; explores every one (one path per value).
pub fn choose(n: u8, name: &str) -> usize {
    let x = u8_in(0, n - 1, name);
    __sym_concretize(x as u64) as usize
}
/// As `choose`, for any number of alternatives.
pub fn pick(n: usize, name: &str) -> usize {
    if n <= 64 { return choose(n as u8, name); }
    let k = choose(((n + 63) / 64) as u8, name) * 64;
    k + choose((n - k).min(64) as u8, name)
}
pub fn assume(c: bool) { __sym_assume(c) }
pub fn check(c: bool, label: &str) { __sym_assert(c, label.as_ptr(), label.len()) }
pub fn observe(b: &[u8], label: &str) { __sym_observe(b.as_ptr(), b.len(), label.as_ptr(), label.len()) }
pub fn observe_u64(x: u64, label: &str) { observe(&x.to_le_bytes(), label) }
pub fn cover(label: &str) { __sym_cover(label.as_ptr(), label.len()) }
pub fn log(s: &str) { __sym_log(s.as_ptr(), s.len()) }
pub fn symbolic() -> bool { __sym_mode() == 1 }

/// Native entry point: `prog HARNESS` replays $HV_REPLAY.
pub fn native_main(table: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.to_string().replace('\n', " | "));
    }));
    let name = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table {
        if *n == name {
            f();
            println!("END");
            return;
        }
    }
    if name == "--list" { for (n, _) in table { println!("{}", n); } return; }
    eprintln!("unknown harness {}", name);
    std::process::exit(3);
}
#[macro_export]
macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn main() { $crate::native_main(&[$((stringify!($f), || $m::$f())),*]) }
    };
}
