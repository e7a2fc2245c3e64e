//! Symbolic inputs and assertions. The symbolic executor implements these
//! functions; natively the replayer implements them from a recorded tape.
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn es_u8() -> u8;
        pub fn es_u16() -> u16;
        pub fn es_u32() -> u32;
        pub fn es_u64() -> u64;
        pub fn es_bool() -> bool;
        pub fn es_range(lo: u64, hi: u64) -> u64;
        pub fn es_int(lo: u32, hi: u32) -> u32;
        pub fn es_int64(lo: u64, hi: u64) -> u64;
        pub fn es_real(lo: f64, hi: f64) -> f64;
        pub fn es_assume(c: bool);
        pub fn es_bound(c: bool, p: *const u8, n: usize);
        pub fn es_check(c: bool, p: *const u8, n: usize);
        pub fn es_close(a: f64, b: f64, tol: f64, p: *const u8, n: usize);
        pub fn es_observe(v: u64);
        pub fn es_observe_f(v: f64);
        pub fn es_conc(v: u64) -> u64;
        pub fn es_cover(p: *const u8, n: usize);
        pub fn es_stub() -> bool;
        pub fn es_exact_roots();
        pub fn es_case() -> u64;
        pub fn es_param(i: u64) -> u64;
        pub fn es_uf(id: u32, a: f64, b: f64, c: f64, lo: f64, hi: f64) -> f64;
        pub fn es_note(p: *const u8, n: usize);
    }
}
use raw::*;
/// Any byte.
pub fn u8() -> u8 {
    unsafe { es_u8() }
}
/// Any 16-bit value.
pub fn u16() -> u16 {
    unsafe { es_u16() }
}
/// Any 32-bit value.
pub fn u32() -> u32 {
    unsafe { es_u32() }
}
/// Any 64-bit value.
pub fn u64() -> u64 {
    unsafe { es_u64() }
}
/// Any truth value.
pub fn bool() -> bool {
    unsafe { es_bool() }
}
/// Any value of `lo..=hi`, as a bit-vector.
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { es_range(lo, hi) }
}
/// Any value of `lo..=hi`, as a mathematical integer (may be converted to a real).
pub fn int(lo: u32, hi: u32) -> u32 {
    unsafe { es_int(lo, hi) }
}
/// 64-bit version of `int`.
pub fn int64(lo: u64, hi: u64) -> u64 {
    unsafe { es_int64(lo, hi) }
}
/// Any real number of `lo..=hi`.
pub fn real(lo: f64, hi: f64) -> f64 {
    unsafe { es_real(lo, hi) }
}
/// Any double, by bit pattern.
pub fn f64_bits() -> f64 {
    f64::from_bits(u64())
}
pub fn assume(c: bool) {
    unsafe { es_assume(c) }
}
/// Executions where `c` is false lie outside the stated bound.
pub fn bound(c: bool, m: &str) {
    unsafe { es_bound(c, m.as_ptr(), m.len()) }
}
pub fn check(c: bool, m: &str) {
    unsafe { es_check(c, m.as_ptr(), m.len()) }
}
/// `a` and `b` agree up to `tol`.
pub fn close_tol(a: f64, b: f64, tol: f64, m: &str) {
    unsafe { es_close(a, b, tol, m.as_ptr(), m.len()) }
}
pub fn close(a: f64, b: f64, m: &str) {
    close_tol(a, b, 1e-9, m)
}
/// Values that may be large: they agree up to 1e-9 of the (not negative) second one.
pub fn close_rel(a: f64, b: f64, m: &str) {
    if a == b {
        return;
    }
    // the wide margin first: a counterexample to it is one natively too
    for tol in [1e-3, 1e-9] {
        let t = tol * (1.0 + b);
        check((a - b <= t) & (b - a <= t), m);
    }
}
/// The same for values of any sign.
pub fn close_any(a: f64, b: f64, m: &str) {
    if a == b {
        return;
    }
    for tol in [1e-3, 1e-9] {
        let (t, u) = (tol * (1.0 + b), tol * (1.0 - b));
        check(((a - b <= t) | (a - b <= u)) & ((b - a <= t) | (b - a <= u)), m);
    }
}
pub fn observe(v: u64) {
    unsafe { es_observe(v) }
}
pub fn observe_f(v: f64) {
    unsafe { es_observe_f(v) }
}
/// Splits into one execution per value.
pub fn conc(v: u64) -> u64 {
    unsafe { es_conc(v) }
}
/// Any u32; relevant ones and others are told apart here, so that counts of them are
/// concrete however the code under test makes them.
pub fn judgement() -> u32 {
    let r = u32();
    conc((r >= 1) as u64);
    r
}
pub fn cover(m: &str) {
    unsafe { es_cover(m.as_ptr(), m.len()) }
}
/// Square roots of constants are exact reals from here on, like those of symbolic values.
pub fn exact_roots() {
    unsafe { es_exact_roots() }
}
pub fn stub() -> bool {
    unsafe { es_stub() }
}
pub fn case() -> u64 {
    unsafe { es_case() }
}
pub fn param(i: u64) -> u64 {
    unsafe { es_param(i) }
}
pub fn note(m: &str) {
    unsafe { es_note(m.as_ptr(), m.len()) }
}
