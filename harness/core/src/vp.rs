//! The interface to the symbolic engine (and to the native replayer).
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn vp_sym(id: u32, lo: isize, hi: isize) -> isize;
        pub fn vp_param(id: u32) -> isize;
        pub fn vp_assume(c: bool);
        pub fn vp_assert(c: bool, id: u32);
        pub fn vp_reach(id: u32);
        pub fn vp_out(id: u32, v: isize);
        pub fn vp_max(a: isize, b: isize) -> isize;
        pub fn vp_min(a: isize, b: isize) -> isize;
        pub fn vp_ite(c: bool, a: isize, b: isize) -> isize;
        pub fn vp_and(a: bool, b: bool) -> bool;
        pub fn vp_or(a: bool, b: bool) -> bool;
        pub fn vp_conc(a: isize) -> isize;
        pub fn vp_stdout(i: isize) -> isize;
    }
}
/// the symbolic input `id`, an integer in lo..=hi (the same one at every call)
pub fn sym(id: u32, lo: isize, hi: isize) -> isize { unsafe { raw::vp_sym(id, lo, hi) } }
/// a concrete configuration parameter
pub fn param(id: u32) -> isize { unsafe { raw::vp_param(id) } }
pub fn assume(c: bool) { unsafe { raw::vp_assume(c) } }
/// Assertion `id`. Parameter 31, if not 0, selects the groups of assertions that are on
/// (bit id/10, bit 62 for 900 and above), so that each property is decided by its own assertions.
pub fn check(c: bool, id: u32) {
    let mask = param(31);
    let g = if id >= 900 { 62 } else { id / 10 };
    if mask == 0 || mask >> g & 1 == 1 {
        unsafe { raw::vp_assert(c, id) }
    }
}
pub fn enabled(id: u32) -> bool {
    let mask = param(31);
    let g = if id >= 900 { 62 } else { id / 10 };
    mask == 0 || mask >> g & 1 == 1
}
/// vacuity guard: this point must be reached on some path
pub fn reach(id: u32) { unsafe { raw::vp_reach(id) } }
/// an observation, compared between the symbolic path and the native re-run
pub fn out(id: u32, v: isize) { unsafe { raw::vp_out(id, v) } }
pub fn max(a: isize, b: isize) -> isize { unsafe { raw::vp_max(a, b) } }
pub fn min(a: isize, b: isize) -> isize { unsafe { raw::vp_min(a, b) } }
pub fn ite(c: bool, a: isize, b: isize) -> isize { unsafe { raw::vp_ite(c, a, b) } }
pub fn and(a: bool, b: bool) -> bool { unsafe { raw::vp_and(a, b) } }
pub fn or(a: bool, b: bool) -> bool { unsafe { raw::vp_or(a, b) } }
/// conjunction without branching
pub fn all<I: Iterator<Item = bool>>(it: I) -> bool { it.fold(true, |a, b| and(a, b)) }
pub fn not(a: bool) -> bool { !a }
pub fn conc(a: isize) -> isize { unsafe { raw::vp_conc(a) } }
/// everything written to standard output so far
pub fn stdout() -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = unsafe { raw::vp_stdout(v.len() as isize) };
        if b < 0 {
            return v;
        }
        v.push(b as u8);
    }
}
