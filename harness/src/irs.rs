//! Harness intrinsics: symbolic in the engine, concrete when replayed.
mod raw {
    extern "C" {
        pub fn irs_f64(lo: f64, hi: f64) -> f64;
        pub fn irs_i64(lo: i64, hi: i64) -> i64;
        pub fn irs_case(n: u64) -> u64;
        pub fn irs_tier() -> u64;
        pub fn irs_symbolic() -> u64;
        pub fn irs_exact(b: bool);
        pub fn irs_panic_ok(b: bool);
        pub fn irs_assume(b: bool);
        pub fn irs_concretize(v: i64) -> i64;
        pub fn irs_reach(p: *const u8, n: u64);
        pub fn irs_trace(v: f64);
        pub fn irs_check(b: bool, p: *const u8, n: u64);
        pub fn irs_rt_init();
        pub fn irs_rt_panic_ok() -> i32;
        pub fn irs_rt_failed() -> i32;
    }
}
/// any double in [lo, hi]
#[inline(always)]
pub fn real(lo: f64, hi: f64) -> f64 { unsafe { raw::irs_f64(lo, hi) } }
/// any integer in [lo, hi]
#[inline(always)]
pub fn int(lo: i64, hi: i64) -> i64 { unsafe { raw::irs_i64(lo, hi) } }
#[inline(always)]
pub fn size(lo: usize, hi: usize) -> usize { int(lo as i64, hi as i64) as usize }
/// one of 0..n, every choice explored as its own task (only at the start of a harness)
#[inline(always)]
pub fn case(n: usize) -> usize { unsafe { raw::irs_case(n as u64) as usize } }
#[inline(always)]
pub fn thorough() -> bool { unsafe { raw::irs_tier() != 0 } }
#[inline(always)]
pub fn tier<T>(quick: T, deep: T) -> T { if thorough() { deep } else { quick } }
#[inline(always)]
pub fn symbolic() -> bool { unsafe { raw::irs_symbolic() != 0 } }
/// real arithmetic instead of rounded arithmetic from here on
#[inline(always)]
pub fn exact(b: bool) { unsafe { raw::irs_exact(b) } }
/// panics are an allowed outcome from here on
#[inline(always)]
pub fn panic_ok(b: bool) { unsafe { raw::irs_panic_ok(b) } }
#[inline(always)]
pub fn assume(b: bool) { unsafe { raw::irs_assume(b) } }
/// split into one path per value
#[inline(always)]
pub fn split(v: i64) -> i64 { unsafe { raw::irs_concretize(v) } }
#[inline(always)]
pub fn reach(l: &str) { unsafe { raw::irs_reach(l.as_ptr(), l.len() as u64) } }
#[inline(always)]
pub fn trace(v: f64) { unsafe { raw::irs_trace(v) } }
#[inline(always)]
pub fn check(b: bool, l: &str) { unsafe { raw::irs_check(b, l.as_ptr(), l.len() as u64) } }

pub fn finish(code: i32) { std::process::exit(if code == 0 && unsafe { raw::irs_rt_failed() } != 0 { 3 } else { code }) }
pub fn init() {
    unsafe { raw::irs_rt_init() };
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("IRS-PANIC {l} {}", i.payload_as_str().unwrap_or(""));
        finish(if unsafe { raw::irs_rt_panic_ok() } != 0 { 0 } else { 5 });
    }));
}

/// |a - b| <= tol without a branch
#[inline(always)]
pub fn near(a: f64, b: f64, tol: f64) -> bool { let d = a - b; (d <= tol) & (d >= -tol) }
/// lo <= a <= hi without a branch
#[inline(always)]
pub fn within(a: f64, lo: f64, hi: f64) -> bool { (lo <= a) & (a <= hi) }
#[inline(always)]
pub fn imp(a: bool, b: bool) -> bool { !a | b }

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident() $b:block )*) => {
        $( #[no_mangle] pub extern "C" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n) ),* ];
    };
}
