//! Harness primitives. In the symbolic build they are external symbols interpreted by the engine;
//! in the native build (feature `native`) they read a recorded counterexample and re-check it.
#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::*;

#[cfg(not(feature = "native"))]
mod raw {
    unsafe extern "C" {
        pub fn sym_bits(w: u32) -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_angle() -> f64;
        pub fn sym_real(lo: f64, hi: f64) -> f64;
        pub fn sym_amps(n: u64, p: *mut f64);
        pub fn sym_sample(seed: u64, idx: u64) -> f64;
        pub fn sym_sample_bits(seed: u64, idx: u64) -> u64;
        pub fn sym_check(b: bool, p: *const u8, n: u64);
        pub fn sym_near(a: f64, b: f64, tol: f64, p: *const u8, n: u64);
        pub fn sym_states(n: u64, a: *const f64, b: *const f64, p: *const u8, l: u64);
        pub fn sym_panic_mode(m: u32);
        pub fn sym_must_not_return(p: *const u8, n: u64);
        pub fn sym_goal(p: *const u8, n: u64);
        pub fn sym_reached(p: *const u8, n: u64);
        pub fn sym_heap_mark();
        pub fn sym_heap_check(p: *const u8, n: u64);
        pub fn sym_live() -> u64;
        pub fn sym_thin(n: u64);
        pub fn sym_tier() -> u64;
        pub fn sym_stdin(p: *const u8, n: u64);
        pub fn sym_capture();
        pub fn sym_captured(p: *mut u8) -> u64;
    }
}
#[cfg(not(feature = "native"))]
mod s {
    use super::raw::*;
    pub fn bits(w: u32) -> u64 { unsafe { sym_bits(w) } }
    pub fn choice(n: usize) -> usize { unsafe { sym_choice(n as u64) as usize } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn angle() -> f64 { unsafe { sym_angle() } }
    pub fn real(lo: f64, hi: f64) -> f64 { unsafe { sym_real(lo, hi) } }
    pub fn amps(p: &mut [f64]) { unsafe { sym_amps(p.len() as u64, p.as_mut_ptr()) } }
    pub fn sample(seed: u64, idx: u64) -> f64 { unsafe { sym_sample(seed, idx) } }
    pub fn sample_bits(seed: u64, idx: u64) -> u64 { unsafe { sym_sample_bits(seed, idx) } }
    pub fn check(b: bool, id: &str) { unsafe { sym_check(b, id.as_ptr(), id.len() as u64) } }
    pub fn near(a: f64, b: f64, tol: f64, id: &str) { unsafe { sym_near(a, b, tol, id.as_ptr(), id.len() as u64) } }
    /// interleaved (re, im); equality up to one global phase
    pub fn states(a: &[f64], b: &[f64], id: &str) { unsafe { sym_states(a.len() as u64 / 2, a.as_ptr(), b.as_ptr(), id.as_ptr(), id.len() as u64) } }
    /// 0: a panic is a violation, 1: a panic is a normal end
    pub fn panic_mode(m: u32) { unsafe { sym_panic_mode(m) } }
    pub fn must_not_return(id: &str) { unsafe { sym_must_not_return(id.as_ptr(), id.len() as u64) } }
    /// some path with the choices made so far has to call `reached` with the same text
    pub fn goal(id: &str) { unsafe { sym_goal(id.as_ptr(), id.len() as u64) } }
    pub fn reached(id: &str) { unsafe { sym_reached(id.as_ptr(), id.len() as u64) } }
    /// native runs that sample move a drawn word into the range asked for
    pub fn fit(v: u64, _: i128, _: i128) -> u64 { v }
    pub fn fit_f(v: f64, _: f64, _: f64) -> f64 { v }
    pub fn heap_mark() { unsafe { sym_heap_mark() } }
    pub fn heap_check(id: &str) { unsafe { sym_heap_check(id.as_ptr(), id.len() as u64) } }
    pub fn live() -> u64 { unsafe { sym_live() } }
    pub fn thin(n: u64) { unsafe { sym_thin(n) } }
    /// what the standard input of the process delivers from now on
    pub fn stdin(d: &[u8]) { unsafe { sym_stdin(d.as_ptr(), d.len() as u64) } }
    /// collect what is written to the standard output of the process
    pub fn capture() { unsafe { sym_capture() } }
    /// everything written since capture()
    pub fn captured() -> Vec<u8> { unsafe { let n = sym_captured(std::ptr::null_mut()) as usize; let mut v = vec![0u8; n]; if n > 0 { sym_captured(v.as_mut_ptr()); } v } }
    pub fn thorough() -> bool { unsafe { sym_tier() != 0 } }
}
#[cfg(not(feature = "native"))]
pub use s::*;

pub fn flag() -> bool { choice(2) == 1 }
/// i64 with every bit symbolic
pub fn int() -> i64 { bits(64) as i64 }
