//! Symbolic-input interface.  In the symbolic build every function below is an intrinsic of the
//! executor (`/verif/engine`).  In the replay build (feature `replay`) the values come from a file:
//! the k-th request is answered with the k-th value of the counterexample.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        pub fn __sym_bits(w: u32) -> u64;
        pub fn __sym_choice(n: u64) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_assert(c: bool, id: u32);
        pub fn __sym_cover(id: u64);
        pub fn __sym_obs(v: u64);
        pub fn __sym_panic_ok(on: bool);
        pub fn __sym_fmt(on: bool);
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_finding(c: bool, id: u32);
    }
}
#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    thread_local! { pub static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0)); }
    pub fn load(v: Vec<u64>) { IN.with(|i| *i.borrow_mut() = (v, 0)); }
    fn next() -> u64 { IN.with(|i| { let mut i = i.borrow_mut(); let k = i.1; i.1 += 1; i.0.get(k).copied().unwrap_or(0) }) }
    pub unsafe fn __sym_bits(w: u32) -> u64 { let v = next(); if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
    pub unsafe fn __sym_choice(n: u64) -> u64 { let v = next(); if v >= n { std::println!("ASSUME_FAIL"); std::process::exit(0) } v }
    pub unsafe fn __sym_assume(c: bool) { if !c { std::println!("ASSUME_FAIL"); std::process::exit(0) } }
    pub unsafe fn __sym_assert(c: bool, id: u32) { if !c { std::println!("ASSERT_FAIL {}", id); std::process::exit(0) } }
    pub unsafe fn __sym_cover(_: u64) {}
    pub unsafe fn __sym_obs(v: u64) { std::println!("OBS {}", v) }
    pub unsafe fn __sym_panic_ok(on: bool) { if on { std::println!("PANIC_OK") } }
    pub unsafe fn __sym_fmt(_: bool) {}
    pub unsafe fn __sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn __sym_finding(c: bool, id: u32) { if c { std::println!("FINDING {}", id); std::process::exit(0) } }
}
#[cfg(feature = "replay")]
pub use imp::load;

/// A fresh unconstrained `w`-bit value.
#[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { imp::__sym_bits(w) } }
/// A fresh value in `0..n` (constrained, not enumerated: the program's own branches split it).
#[inline(always)] pub fn below(n: u64) -> u64 { let mut w = 1; while (1u64 << w) < n { w += 1 } let v = bits(w); assume(v < n); v }
#[inline(always)] pub fn range(lo: u64, hi: u64) -> u64 { lo + below(hi - lo + 1) }
/// Fresh value in 0..n, split into n paths here.
#[inline(always)] pub fn choice(n: u64) -> u64 { unsafe { imp::__sym_choice(n) } }
#[inline(always)] pub fn flag() -> bool { bits(1) == 1 }
#[inline(always)] pub fn u8v() -> u8 { bits(8) as u8 }
#[inline(always)] pub fn i64v() -> i64 { bits(64) as i64 }
#[inline(always)] pub fn i32v() -> i32 { bits(32) as i32 }
#[inline(always)] pub fn assume(c: bool) { unsafe { imp::__sym_assume(c) } }
#[inline(always)] pub fn check(c: bool, id: u32) { unsafe { imp::__sym_assert(c, id) } }
#[inline(always)] pub fn cover(id: u64) { unsafe { imp::__sym_cover(id) } }
#[inline(always)] pub fn obs(v: u64) { unsafe { imp::__sym_obs(v) } }
#[inline(always)] pub fn panic_ok(on: bool) { unsafe { imp::__sym_panic_ok(on) } }
#[inline(always)] pub fn fmt(on: bool) { unsafe { imp::__sym_fmt(on) } }
#[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { imp::__sym_concretize(v) } }
/// If `c` holds the path is a listed known finding: it is recorded and ends here.
#[inline(always)] pub fn finding(c: bool, id: u32) { unsafe { imp::__sym_finding(c, id) } }
/// The random numbers of the stand-in for the `rand` crate.
#[no_mangle] pub extern "C" fn __rand_bits(w: u32) -> u64 { bits(w) }
#[no_mangle] pub extern "C" fn __rand_unit() -> f64 { let v = bits(62); assume(v < 1.0f64.to_bits()); f64::from_bits(v) }
