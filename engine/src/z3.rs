//! Minimal binding to the Z3 C API and an incremental solver for path conditions.
use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::{Duration, Instant};

type A = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_set_param_value(c: A, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: A) -> A;
    fn Z3_inc_ref(c: A, a: A);
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_int_sort(c: A) -> A;
    fn Z3_mk_bv_sort(c: A, w: c_uint) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_mk_numeral(c: A, s: *const c_char, t: A) -> A;
    fn Z3_mk_true(c: A) -> A;
    fn Z3_mk_false(c: A) -> A;
    fn Z3_mk_not(c: A, a: A) -> A;
    fn Z3_mk_ite(c: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_and(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_le(c: A, a: A, b: A) -> A;
    fn Z3_mk_add(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_mul(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_div(c: A, a: A, b: A) -> A;
    fn Z3_mk_mod(c: A, a: A, b: A) -> A;
    fn Z3_mk_int2bv(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_bv2int(c: A, a: A, s: bool) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsmod(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_sort(c: A, e: c_uint, s: c_uint) -> A;
    fn Z3_mk_fpa_rne(c: A) -> A;
    fn Z3_mk_fpa_rtz(c: A) -> A;
    fn Z3_mk_fpa_add(c: A, r: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_sub(c: A, r: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_mul(c: A, r: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_div(c: A, r: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_neg(c: A, a: A) -> A;
    fn Z3_mk_fpa_abs(c: A, a: A) -> A;
    fn Z3_mk_fpa_lt(c: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_leq(c: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_is_nan(c: A, a: A) -> A;
    fn Z3_mk_fpa_to_fp_bv(c: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_fp_float(c: A, r: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_fp_signed(c: A, r: A, a: A, s: A) -> A;
    fn Z3_mk_fpa_to_ieee_bv(c: A, a: A) -> A;
    fn Z3_mk_fpa_to_sbv(c: A, r: A, a: A, w: c_uint) -> A;
    fn Z3_mk_extract(c: A, h: c_uint, l: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_simple_solver(c: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_solver_push(c: A, s: A);
    fn Z3_solver_pop(c: A, s: A, n: c_uint);
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check(c: A, s: A) -> c_int;
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_model_inc_ref(c: A, m: A);
    fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, t: A, compl: bool, v: *mut A) -> bool;
    fn Z3_get_numeral_string(c: A, a: A) -> *const c_char;
    fn Z3_set_error_handler(c: A, h: *const c_void);
    fn Z3_get_error_code(c: A) -> c_int;
    fn Z3_mk_params(c: A) -> A;
    fn Z3_params_inc_ref(c: A, p: A);
    fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: A, s: A, p: A);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum R {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: A,
    s: A,
    sort: A,
    pub bv: bool,
    w: u32,
    memo: FxMap<E, A>,
    memob: FxMap<E, A>,
    stack: Vec<E>,
    nvars: usize,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max_q: Duration,
}

impl Z3 {
    pub fn new(bv: bool, timeout_ms: u32, seed: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            for (k, v) in [("timeout", timeout_ms), ("random_seed", seed)] {
                let k = CString::new(k).unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), v);
            }
            Z3_solver_set_params(c, s, p);
            let w = 72;
            let sort = if bv { Z3_mk_bv_sort(c, w) } else { Z3_mk_int_sort(c) };
            Z3_inc_ref(c, sort);
            Z3 { c, s, sort, bv, w, memo: Default::default(), memob: Default::default(), stack: vec![], nvars: 0, queries: 0, sat: 0, unsat: 0, unknown: 0, time: Duration::ZERO, max_q: Duration::ZERO }
        }
    }
    fn num(&mut self, v: i128) -> A {
        unsafe {
            let s = CString::new(format!("{}", v)).unwrap();
            let r = Z3_mk_numeral(self.c, s.as_ptr(), self.sort);
            Z3_inc_ref(self.c, r);
            r
        }
    }
    fn keep(&mut self, a: A) -> A {
        unsafe {
            if a.is_null() {
                panic!("z3 error {}", Z3_get_error_code(self.c));
            }
            Z3_inc_ref(self.c, a);
        }
        a
    }
    fn add2(&mut self, a: A, b: A) -> A {
        unsafe {
            let r = if self.bv {
                Z3_mk_bvadd(self.c, a, b)
            } else {
                let v = [a, b];
                Z3_mk_add(self.c, 2, v.as_ptr())
            };
            self.keep(r)
        }
    }
    fn sbit(&mut self, w: u32, a: A) -> A {
        // sign-extended low w bits
        unsafe {
            let lowbits = Z3_mk_extract(self.c, w - 1, 0, a);
            let l = self.keep(lowbits);
            let r = Z3_mk_sign_ext(self.c, self.w - w, l);
            self.keep(r)
        }
    }
    fn rne(&mut self) -> A {
        unsafe {
            let r = Z3_mk_fpa_rne(self.c);
            self.keep(r)
        }
    }
    fn fsort(&mut self, w: u32) -> A {
        unsafe {
            let s = if w == 32 { Z3_mk_fpa_sort(self.c, 8, 24) } else { Z3_mk_fpa_sort(self.c, 11, 53) };
            self.keep(s)
        }
    }
    /// bits of a float, sign-extended
    fn fbits(&mut self, f: A, w: u32) -> A {
        unsafe {
            let b = Z3_mk_fpa_to_ieee_bv(self.c, f);
            let b = self.keep(b);
            let r = Z3_mk_sign_ext(self.c, self.w - w, b);
            self.keep(r)
        }
    }
    /// an integer in as many bits as it needs
    fn tin(&mut self, x: &Ctx, e: E) -> A {
        let a = self.ti(x, e);
        let m = (x.hi(e).max(0) as u128).max(x.lo(e).min(0).unsigned_abs());
        let k = (129 - m.leading_zeros() + 1).min(self.w);
        unsafe {
            let r = Z3_mk_extract(self.c, k - 1, 0, a);
            self.keep(r)
        }
    }
    fn fbv(&mut self, a: A, w: u32) -> A {
        unsafe {
            let b = Z3_mk_extract(self.c, w - 1, 0, a);
            let b = self.keep(b);
            let s = self.fsort(w);
            let r = Z3_mk_fpa_to_fp_bv(self.c, b, s);
            self.keep(r)
        }
    }
    fn fof(&mut self, x: &Ctx, e: E, w: u32) -> A {
        let a = self.ti(x, e);
        self.fbv(a, w)
    }
    fn fnum(&mut self, bits: i128, w: u32) -> A {
        let a = self.num(bits);
        self.fbv(a, w)
    }
    /// integer-valued term
    fn ti(&mut self, x: &Ctx, e: E) -> A {
        if let Some(a) = self.memo.get(&e) {
            return *a;
        }
        let n = x.nodes[e as usize].clone();
        let r = unsafe {
            match n {
                N::K(v) => self.num(v),
                N::Var(v) => {
                    let nm = CString::new(format!("v{}_{}", v, x.vars[v as usize].name)).unwrap();
                    let sy = Z3_mk_string_symbol(self.c, nm.as_ptr());
                    let a = Z3_mk_const(self.c, sy, self.sort);
                    self.keep(a)
                }
                N::Lin(k, t) => {
                    let mut acc: Option<A> = None;
                    let mut terms = vec![];
                    for (a, c) in t.iter() {
                        let ta = self.ti(x, *a);
                        let term = if *c == 1 {
                            ta
                        } else {
                            let cn = self.num(*c);
                            let m = if self.bv {
                                Z3_mk_bvmul(self.c, cn, ta)
                            } else {
                                let v = [cn, ta];
                                Z3_mk_mul(self.c, 2, v.as_ptr())
                            };
                            self.keep(m)
                        };
                        terms.push(term);
                    }
                    if k != 0 {
                        let kn = self.num(k);
                        terms.push(kn);
                    }
                    if self.bv {
                        for t in terms {
                            acc = Some(match acc {
                                None => t,
                                Some(a) => self.add2(a, t),
                            });
                        }
                        acc.unwrap()
                    } else if terms.len() == 1 {
                        terms[0]
                    } else {
                        let r = Z3_mk_add(self.c, terms.len() as u32, terms.as_ptr());
                        self.keep(r)
                    }
                }
                N::Ite(c, a, b) => {
                    let c = self.tb(x, c);
                    let a = self.ti(x, a);
                    let b = self.ti(x, b);
                    let r = Z3_mk_ite(self.c, c, a, b);
                    self.keep(r)
                }
                N::Le0(_) | N::Eq0(_) | N::Not(_) | N::And(..) | N::Or(..) => {
                    let c = self.tb(x, e);
                    let o = self.num(1);
                    let z = self.num(0);
                    let r = Z3_mk_ite(self.c, c, o, z);
                    self.keep(r)
                }
                N::Mul(a, b) => {
                    let a = self.ti(x, a);
                    let b = self.ti(x, b);
                    let r = if self.bv {
                        Z3_mk_bvmul(self.c, a, b)
                    } else {
                        let v = [a, b];
                        Z3_mk_mul(self.c, 2, v.as_ptr())
                    };
                    self.keep(r)
                }
                N::Flt(n, d, w) if self.bv => {
                    let rne = self.rne();
                    let s = self.fsort(w);
                    let one = x.kval(d) == Some(1);
                    let (n, d) = (self.tin(x, n), self.tin(x, d));
                    let a = Z3_mk_fpa_to_fp_signed(self.c, rne, n, s);
                    let a = self.keep(a);
                    if one {
                        let r = self.fbits(a, w);
                        self.memo.insert(e, r);
                        return r;
                    }
                    let b = Z3_mk_fpa_to_fp_signed(self.c, rne, d, s);
                    let b = self.keep(b);
                    let q = Z3_mk_fpa_div(self.c, rne, a, b);
                    let q = self.keep(q);
                    self.fbits(q, w)
                }
                N::Fp(o, w, a, b) => {
                    assert!(self.bv, "the bits of a symbolic float");
                    let rne = self.rne();
                    match o {
                        Fo::Lt | Fo::Le | Fo::Eq => {
                            let c = self.tb(x, e);
                            let o = self.num(1);
                            let z = self.num(0);
                            let r = Z3_mk_ite(self.c, c, o, z);
                            self.keep(r)
                        }
                        Fo::Rev(step) => {
                            let a = self.ti(x, a);
                            let mut r = Z3_mk_extract(self.c, step - 1, 0, a);
                            r = self.keep(r);
                            let mut k = step;
                            while k < w {
                                let b = Z3_mk_extract(self.c, k + step - 1, k, a);
                                let b = self.keep(b);
                                r = Z3_mk_concat(self.c, r, b);
                                r = self.keep(r);
                                k += step;
                            }
                            let r = Z3_mk_sign_ext(self.c, self.w - w, r);
                            self.keep(r)
                        }
                        Fo::Of => {
                            let s = self.fsort(w);
                            let a = self.tin(x, a);
                            let r = Z3_mk_fpa_to_fp_signed(self.c, rne, a, s);
                            let r = self.keep(r);
                            self.fbits(r, w)
                        }
                        Fo::Cvt => {
                            let s = self.fsort(w);
                            let a = self.fof(x, a, 96 - w);
                            let r = Z3_mk_fpa_to_fp_float(self.c, rne, a, s);
                            let r = self.keep(r);
                            self.fbits(r, w)
                        }
                        Fo::To(sg, t) => {
                            let f = self.fof(x, a, w);
                            if x.lo(e) >= 0 && x.hi(e) < 1 << 60 {
                                // in range
                                let rtz = Z3_mk_fpa_rtz(self.c);
                                let rtz = self.keep(rtz);
                                let k = 129 - (x.hi(e) as u128).leading_zeros();
                                let v = Z3_mk_fpa_to_sbv(self.c, rtz, f, k);
                                let v = self.keep(v);
                                let v = Z3_mk_sign_ext(self.c, self.w - k, v);
                                let v = self.keep(v);
                                self.memo.insert(e, v);
                                return v;
                            }
                            let (lo, hi) = if sg { (-(1i128 << (t - 1)), (1i128 << (t - 1)) - 1) } else { (0, (1i128 << t) - 1) };
                            // the limits as floats: at or beyond them the result is the limit
                            let bits = |v: i128| if w == 32 { (v as f32).to_bits() as i32 as i128 } else { (v as f64).to_bits() as i64 as i128 };
                            let (fl, fh) = (self.fnum(bits(lo), w), self.fnum(bits(hi + 1), w));
                            let rtz = Z3_mk_fpa_rtz(self.c);
                            let rtz = self.keep(rtz);
                            let v = Z3_mk_fpa_to_sbv(self.c, rtz, f, self.w);
                            let v = self.keep(v);
                            let (nl, nh, n0) = (self.num(lo), self.num(hi), self.num(0));
                            let below = Z3_mk_fpa_leq(self.c, f, fl);
                            let below = self.keep(below);
                            let above = Z3_mk_fpa_leq(self.c, fh, f);
                            let above = self.keep(above);
                            let nan = Z3_mk_fpa_is_nan(self.c, f);
                            let nan = self.keep(nan);
                            let r = Z3_mk_ite(self.c, above, nh, v);
                            let r = self.keep(r);
                            let r = Z3_mk_ite(self.c, below, nl, r);
                            let r = self.keep(r);
                            let r = Z3_mk_ite(self.c, nan, n0, r);
                            self.keep(r)
                        }
                        _ => {
                            let f = self.fof(x, a, w);
                            let r = match o {
                                Fo::Neg => Z3_mk_fpa_neg(self.c, f),
                                Fo::Abs => Z3_mk_fpa_abs(self.c, f),
                                _ => {
                                    let g = self.fof(x, b, w);
                                    match o {
                                        Fo::Add => Z3_mk_fpa_add(self.c, rne, f, g),
                                        Fo::Sub => Z3_mk_fpa_sub(self.c, rne, f, g),
                                        Fo::Mul => Z3_mk_fpa_mul(self.c, rne, f, g),
                                        _ => Z3_mk_fpa_div(self.c, rne, f, g),
                                    }
                                }
                            };
                            let r = self.keep(r);
                            self.fbits(r, w)
                        }
                    }
                }
                N::Flt(..) => panic!("the bits of a symbolic float"),
                N::DivF(a, d) | N::ModF(a, d) => {
                    let isdiv = matches!(x.nodes[e as usize], N::DivF(..));
                    let ta = self.ti(x, a);
                    let dn = self.num(d);
                    let r = if !self.bv {
                        if isdiv {
                            Z3_mk_div(self.c, ta, dn)
                        } else {
                            Z3_mk_mod(self.c, ta, dn)
                        }
                    } else if d & (d - 1) == 0 {
                        let sh = d.trailing_zeros() as i128;
                        if isdiv {
                            let k = self.num(sh);
                            Z3_mk_bvashr(self.c, ta, k)
                        } else {
                            let k = self.num(d - 1);
                            Z3_mk_bvand(self.c, ta, k)
                        }
                    } else {
                        let m = Z3_mk_bvsmod(self.c, ta, dn);
                        let m = self.keep(m);
                        if isdiv {
                            let s = Z3_mk_bvsub(self.c, ta, m);
                            let s = self.keep(s);
                            Z3_mk_bvsdiv(self.c, s, dn)
                        } else {
                            m
                        }
                    };
                    self.keep(r)
                }
                N::Bit(op, w, a, b) => {
                    let ta = self.ti(x, a);
                    let tb = self.ti(x, b);
                    if self.bv {
                        let r = match op {
                            BinOp::And => Z3_mk_bvand(self.c, ta, tb),
                            BinOp::Or => Z3_mk_bvor(self.c, ta, tb),
                            BinOp::Xor => Z3_mk_bvxor(self.c, ta, tb),
                            BinOp::Shl => {
                                let r = Z3_mk_bvshl(self.c, ta, tb);
                                let r = self.keep(r);
                                self.sbit(w, r)
                            }
                            BinOp::LShr => Z3_mk_bvlshr(self.c, ta, tb),
                            BinOp::AShr => Z3_mk_bvashr(self.c, ta, tb),
                            BinOp::UDiv => Z3_mk_bvudiv(self.c, ta, tb),
                            BinOp::URem => Z3_mk_bvurem(self.c, ta, tb),
                            _ => panic!("bit"),
                        };
                        self.keep(r)
                    } else if matches!(op, BinOp::UDiv | BinOp::URem) {
                        let r = if op == BinOp::UDiv { Z3_mk_div(self.c, ta, tb) } else { Z3_mk_mod(self.c, ta, tb) };
                        self.keep(r)
                    } else {
                        let ba = Z3_mk_int2bv(self.c, w, ta);
                        let ba = self.keep(ba);
                        let bb = Z3_mk_int2bv(self.c, w, tb);
                        let bb = self.keep(bb);
                        let r = match op {
                            BinOp::And => Z3_mk_bvand(self.c, ba, bb),
                            BinOp::Or => Z3_mk_bvor(self.c, ba, bb),
                            BinOp::Xor => Z3_mk_bvxor(self.c, ba, bb),
                            BinOp::Shl => Z3_mk_bvshl(self.c, ba, bb),
                            BinOp::LShr => Z3_mk_bvlshr(self.c, ba, bb),
                            _ => Z3_mk_bvashr(self.c, ba, bb),
                        };
                        let r = self.keep(r);
                        let r = Z3_mk_bv2int(self.c, r, op != BinOp::LShr);
                        self.keep(r)
                    }
                }
            }
        };
        self.memo.insert(e, r);
        r
    }
    fn tb(&mut self, x: &Ctx, e: E) -> A {
        if let Some(a) = self.memob.get(&e) {
            return *a;
        }
        let n = x.nodes[e as usize].clone();
        let r = unsafe {
            match n {
                N::K(v) => {
                    if v != 0 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                }
                N::Le0(l) => {
                    // split constant to the right
                    let (k, body) = match &x.nodes[l as usize] {
                        N::Lin(k, t) => (*k, Some(t.clone())),
                        _ => (0, None),
                    };
                    let _ = body;
                    let a = self.ti(x, l);
                    let z = self.num(0);
                    let _ = k;
                    if self.bv {
                        Z3_mk_bvsle(self.c, a, z)
                    } else {
                        Z3_mk_le(self.c, a, z)
                    }
                }
                N::Eq0(l) => {
                    let a = self.ti(x, l);
                    let z = self.num(0);
                    Z3_mk_eq(self.c, a, z)
                }
                N::Fp(o @ (Fo::Lt | Fo::Le | Fo::Eq), w, a, b) => {
                    let (f, g) = (self.fof(x, a, w), self.fof(x, b, w));
                    match o {
                        Fo::Lt => Z3_mk_fpa_lt(self.c, f, g),
                        Fo::Le => Z3_mk_fpa_leq(self.c, f, g),
                        _ => Z3_mk_fpa_eq(self.c, f, g),
                    }
                }
                N::Not(a) => {
                    let a = self.tb(x, a);
                    Z3_mk_not(self.c, a)
                }
                N::And(a, b) => {
                    let v = [self.tb(x, a), self.tb(x, b)];
                    Z3_mk_and(self.c, 2, v.as_ptr())
                }
                N::Or(a, b) => {
                    let v = [self.tb(x, a), self.tb(x, b)];
                    Z3_mk_or(self.c, 2, v.as_ptr())
                }
                _ => {
                    // integer used as boolean (0/1)
                    let a = self.ti(x, e);
                    let o = self.num(1);
                    Z3_mk_eq(self.c, a, o)
                }
            }
        };
        let r = self.keep(r);
        self.memob.insert(e, r);
        r
    }
    /// make sure bounds of every variable are asserted at the base level
    fn sync_vars(&mut self, x: &Ctx) {
        if self.nvars == x.vars.len() {
            return;
        }
        unsafe {
            if !self.stack.is_empty() {
                Z3_solver_pop(self.c, self.s, self.stack.len() as u32);
                self.stack.clear();
            }
            for v in self.nvars..x.vars.len() {
                let name = x.vars[v].name;
                let e = *x.varmap.get(&(name, x.vars[v].lo, x.vars[v].hi)).unwrap();
                let a = self.ti(x, e);
                let lo = self.num(x.vars[v].lo);
                let hi = self.num(x.vars[v].hi);
                let p = if self.bv { Z3_mk_bvsle(self.c, lo, a) } else { Z3_mk_le(self.c, lo, a) };
                let p = self.keep(p);
                let q = if self.bv { Z3_mk_bvsle(self.c, a, hi) } else { Z3_mk_le(self.c, a, hi) };
                let q = self.keep(q);
                Z3_solver_assert(self.c, self.s, p);
                Z3_solver_assert(self.c, self.s, q);
            }
        }
        self.nvars = x.vars.len();
    }
    /// is pc /\ extra satisfiable?
    pub fn check(&mut self, x: &Ctx, pc: &[E], extra: Option<E>, want_model: bool) -> (R, Option<Model>) {
        let t0 = Instant::now();
        self.sync_vars(x);
        unsafe {
            let mut n = 0;
            while n < self.stack.len() && n < pc.len() && self.stack[n] == pc[n] {
                n += 1;
            }
            if n < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - n) as u32);
                self.stack.truncate(n);
            }
            for e in &pc[n..] {
                let a = self.tb(x, *e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(*e);
            }
            if let Some(e) = extra {
                let a = self.tb(x, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => R::Sat,
                -1 => R::Unsat,
                _ => R::Unknown,
            };
            let mut model = None;
            if r == R::Sat && want_model {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![i128::MIN; x.vars.len()];
                for v in 0..x.vars.len() {
                    let e = *x.varmap.get(&(x.vars[v].name, x.vars[v].lo, x.vars[v].hi)).unwrap();
                    let a = self.ti(x, e);
                    let mut out: A = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, a, true, &mut out) {
                        Z3_inc_ref(self.c, out);
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().into_owned();
                        let mut val: i128 = s.parse().unwrap_or(0);
                        if self.bv && val >= (1i128 << (self.w - 1)) {
                            val -= 1i128 << self.w;
                        }
                        assert!(val >= x.vars[v].lo && val <= x.vars[v].hi, "model outside the variable's bounds");
                        vals[v] = val;
                    }
                }
                Z3_model_dec_ref(self.c, m);
                model = Some(Model { vals, memo: Default::default() });
            }
            if extra.is_some() {
                Z3_solver_pop(self.c, self.s, 1);
            }
            self.queries += 1;
            match r {
                R::Sat => self.sat += 1,
                R::Unsat => self.unsat += 1,
                R::Unknown => self.unknown += 1,
            }
            let dt = t0.elapsed();
            self.time += dt;
            self.max_q = self.max_q.max(dt);
            (r, model)
        }
    }
}
