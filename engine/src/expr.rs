//! Hash-consed symbolic expressions over mathematical integers, with intervals.
//! A value of an iN register (N >= 2) is represented by its *signed* integer value;
//! an i1 value by a boolean node (0/1).
use crate::ir::BinOp;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_i128(&mut self, x: i128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(i128),
    Var(u32),
    Lin(i128, Box<[(E, i128)]>),
    Ite(E, E, E),
    Le0(E),
    Eq0(E),
    Not(E),
    And(E, E),
    Or(E, E),
    Mul(E, E),
    DivF(E, i128),
    ModF(E, i128),
    Bit(BinOp, u32, E, E),
    /// the bits of the float (32 or 64 bits) nearest to the quotient of two integers
    Flt(E, E, u32),
    /// floating point operation of a width on bits (bit-vector mode only)
    Fp(Fo, u32, E, E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fo {
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Abs,
    Lt,
    Le,
    Eq,
    /// from an integer
    Of,
    /// to an integer (signed, width), saturating
    To(bool, u32),
    /// from the other width
    Cvt,
    /// not about floats: the pieces of this many bits in reverse order
    Rev(u32),
}
pub fn rev(step: u32, w: u32, a: i128) -> i128 {
    let mut r = 0u128;
    let mut k = 0;
    while k < w {
        r |= (a as u128 >> k & ((1 << step) - 1)) << (w - step - k);
        k += step;
    }
    (r << (128 - w)) as i128 >> (128 - w)
}
/// exact floating point of w bits, on bits (sign-extended)
pub fn fp_eval(o: Fo, w: u32, a: i128, b: i128) -> i128 {
    if let Fo::Rev(step) = o {
        return rev(step, w, a);
    }
    macro_rules! go {
        ($f:ty, $u:ty, $i:ty, $of:ty, $ou:ty) => {{
            let (x, y) = (<$f>::from_bits(a as $u), <$f>::from_bits(b as $u));
            let z = match o {
                Fo::Add => x + y,
                Fo::Sub => x - y,
                Fo::Mul => x * y,
                Fo::Div => x / y,
                Fo::Neg => -x,
                Fo::Abs => x.abs(),
                Fo::Lt => return (x < y) as i128,
                Fo::Le => return (x <= y) as i128,
                Fo::Eq => return (x == y) as i128,
                Fo::Of => a as $f,
                Fo::To(s, t) => {
                    let v = x as i128;
                    return if s { v.clamp(-(1i128 << (t - 1)), (1i128 << (t - 1)) - 1) } else { v.clamp(0, (1i128 << t) - 1) };
                }
                Fo::Cvt => <$of>::from_bits(a as $ou) as $f,
                Fo::Rev(_) => unreachable!(),
            };
            z.to_bits() as $i as i128
        }};
    }
    if w == 32 {
        go!(f32, u32, i32, f64, u64)
    } else {
        go!(f64, u64, i64, f32, u32)
    }
}

pub fn flt_bits(n: i128, d: i128, w: u32) -> i64 {
    if w == 32 {
        (n as f32 / d as f32).to_bits() as i32 as i64
    } else {
        (n as f64 / d as f64).to_bits() as i64
    }
}

pub struct VarInfo {
    pub name: u32,
    pub lo: i128,
    pub hi: i128,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub iv: Vec<(i128, i128)>,
    pub isb: Vec<bool>,
    map: FxMap<N, E>,
    pub vars: Vec<VarInfo>,
    pub varmap: FxMap<(u32, i128, i128), E>,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
fn div_ceil(a: i128, b: i128) -> i128 {
    -((-a).div_euclid(b))
}
const BIG: i128 = 1 << 120;
fn cl(x: i128) -> i128 {
    x.clamp(-BIG, BIG)
}

pub const T: E = 1;
pub const F: E = 0;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], iv: vec![], isb: vec![], map: Default::default(), vars: vec![], varmap: Default::default() };
        c.k(0); // F
        c.k(1); // T
        c
    }
    fn mk(&mut self, n: N, lo: i128, hi: i128, b: bool) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.map.insert(n.clone(), e);
        self.nodes.push(n);
        self.iv.push((cl(lo), cl(hi)));
        self.isb.push(b);
        e
    }
    pub fn k(&mut self, v: i128) -> E {
        self.mk(N::K(v), v, v, v == 0 || v == 1)
    }
    pub fn kval(&self, e: E) -> Option<i128> {
        match self.nodes[e as usize] {
            N::K(v) => Some(v),
            _ => None,
        }
    }
    pub fn lo(&self, e: E) -> i128 {
        self.iv[e as usize].0
    }
    pub fn hi(&self, e: E) -> i128 {
        self.iv[e as usize].1
    }
    pub fn is_bool(&self, e: E) -> bool {
        self.isb[e as usize]
    }
    pub fn var(&mut self, name: u32, lo: i128, hi: i128) -> E {
        if lo == hi {
            return self.k(lo);
        }
        if let Some(e) = self.varmap.get(&(name, lo, hi)) {
            return *e;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, lo, hi });
        let e = self.mk(N::Var(id), lo, hi, false);
        self.varmap.insert((name, lo, hi), e);
        e
    }
    // ---- linear arithmetic -----------------------------------------------
    fn parts(&self, e: E) -> (i128, Vec<(E, i128)>) {
        match &self.nodes[e as usize] {
            N::K(v) => (*v, vec![]),
            N::Lin(k, t) => (*k, t.to_vec()),
            _ => (0, vec![(e, 1)]),
        }
    }
    fn mk_lin(&mut self, k: i128, t: Vec<(E, i128)>) -> E {
        if t.is_empty() {
            return self.k(k);
        }
        if k == 0 && t.len() == 1 && t[0].1 == 1 {
            return t[0].0;
        }
        let (mut lo, mut hi) = (k, k);
        for (a, c) in &t {
            let (l, h) = self.iv[*a as usize];
            if *c > 0 {
                lo = cl(lo.saturating_add(l.saturating_mul(*c)));
                hi = cl(hi.saturating_add(h.saturating_mul(*c)));
            } else {
                lo = cl(lo.saturating_add(h.saturating_mul(*c)));
                hi = cl(hi.saturating_add(l.saturating_mul(*c)));
            }
        }
        self.mk(N::Lin(k, t.into()), lo, hi, false)
    }
    /// a + c*b
    pub fn addc(&mut self, a: E, b: E, c: i128) -> E {
        let (k1, t1) = self.parts(a);
        let (k2, t2) = self.parts(b);
        let k = k1 + c * k2;
        let mut r = Vec::with_capacity(t1.len() + t2.len());
        let (mut i, mut j) = (0, 0);
        while i < t1.len() || j < t2.len() {
            if j >= t2.len() || (i < t1.len() && t1[i].0 < t2[j].0) {
                r.push(t1[i]);
                i += 1;
            } else if i >= t1.len() || t2[j].0 < t1[i].0 {
                if c != 0 {
                    r.push((t2[j].0, t2[j].1 * c));
                }
                j += 1;
            } else {
                let v = t1[i].1 + t2[j].1 * c;
                if v != 0 {
                    r.push((t1[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_lin(k, r)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        self.addc(a, b, 1)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        self.addc(a, b, -1)
    }
    pub fn addk(&mut self, a: E, k: i128) -> E {
        if k == 0 {
            return a;
        }
        let (k1, t) = self.parts(a);
        self.mk_lin(k1 + k, t)
    }
    pub fn scale(&mut self, a: E, c: i128) -> E {
        if c == 1 {
            return a;
        }
        let z = self.k(0);
        self.addc(z, a, c)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        if let Some(c) = self.kval(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.kval(b) {
            return self.scale(a, c);
        }
        let (a, b) = (a.min(b), a.max(b));
        // bool * x
        if self.is_bool(a) {
            let z = self.k(0);
            return self.ite(a, b, z);
        }
        if self.is_bool(b) {
            let z = self.k(0);
            return self.ite(b, a, z);
        }
        let c = [self.lo(a).saturating_mul(self.lo(b)), self.lo(a).saturating_mul(self.hi(b)), self.hi(a).saturating_mul(self.lo(b)), self.hi(a).saturating_mul(self.hi(b))];
        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        self.mk(N::Mul(a, b), lo, hi, false)
    }
    pub fn divf(&mut self, a: E, d: i128) -> E {
        // floor division by positive constant
        if d == 1 {
            return a;
        }
        if let Some(v) = self.kval(a) {
            return self.k(v.div_euclid(d));
        }
        if self.lo(a) >= 0 && self.hi(a) < d {
            return self.k(0);
        }
        let (k, t) = self.parts(a);
        let q: Vec<_> = t.iter().filter(|x| x.1 % d == 0).map(|x| (x.0, x.1 / d)).collect();
        if !q.is_empty() {
            let r: Vec<_> = t.iter().filter(|x| x.1 % d != 0).cloned().collect();
            let qk = k.div_euclid(d);
            let rk = k.rem_euclid(d);
            let qe = self.mk_lin(qk, q);
            let re = self.mk_lin(rk, r);
            let re = self.divf(re, d);
            return self.add(qe, re);
        }
        if let N::Ite(c, x, y) = self.nodes[a as usize] {
            if self.kval(x).is_some() && self.kval(y).is_some() {
                let x = self.divf(x, d);
                let y = self.divf(y, d);
                return self.ite(c, x, y);
            }
        }
        let (lo, hi) = (self.lo(a).div_euclid(d), self.hi(a).div_euclid(d));
        if lo == hi {
            return self.k(lo);
        }
        self.mk(N::DivF(a, d), lo, hi, false)
    }
    pub fn flt(&mut self, n: E, d: E, w: u32) -> E {
        let (mut lo, mut hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        if self.lo(n) >= 0 && self.lo(d) > 0 {
            lo = flt_bits(self.lo(n), self.hi(d), w) as i128;
            hi = flt_bits(self.hi(n), self.lo(d), w) as i128;
        }
        self.mk(N::Flt(n, d, w), lo, hi, false)
    }
    pub fn fp(&mut self, o: Fo, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            return self.k(fp_eval(o, w, x, y));
        }
        let (mut lo, mut hi, p) = match o {
            Fo::Lt | Fo::Le | Fo::Eq => (0, 1, true),
            Fo::To(true, t) => (-(1i128 << (t - 1)), (1i128 << (t - 1)) - 1, false),
            Fo::To(false, t) => (0, (1i128 << t) - 1, false),
            _ => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1, false),
        };
        // the bits of numbers that are not negative are in the order of the numbers, and rounding keeps order
        let inf = |w: u32| if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000i128 };
        let (la, ha, lb, hb) = (self.lo(a), self.hi(a), self.lo(b), self.hi(b));
        let top = match o {
            Fo::Of => i128::MAX,
            Fo::Cvt => inf(96 - w),
            _ => inf(w),
        };
        if la >= 0 && ha < top && lb >= 0 && hb < inf(w) {
            let r = match o {
                Fo::Add | Fo::Mul => Some((fp_eval(o, w, la, lb), fp_eval(o, w, ha, hb))),
                Fo::Div if lb > 0 => Some((fp_eval(o, w, la, hb), fp_eval(o, w, ha, lb))),
                Fo::Of | Fo::To(..) | Fo::Cvt => Some((fp_eval(o, w, la, 0), fp_eval(o, w, ha, 0))),
                Fo::Lt => Some(((ha < lb) as i128, (la < hb) as i128)),
                Fo::Le => Some(((ha <= lb) as i128, (la <= hb) as i128)),
                Fo::Eq => Some((0, (la <= hb && lb <= ha) as i128)),
                Fo::Abs => return a,
                _ => None,
            };
            if let Some((l, h)) = r {
                lo = l;
                hi = h;
            }
        }
        if lo == hi {
            return self.k(lo);
        }
        self.mk(N::Fp(o, w, a, b), lo, hi, p)
    }
    pub fn modf(&mut self, a: E, d: i128) -> E {
        if d == 1 {
            return self.k(0);
        }
        if self.lo(a) >= 0 && self.hi(a) < d {
            return a;
        }
        if let Some(v) = self.kval(a) {
            return self.k(v.rem_euclid(d));
        }
        let (k, t) = self.parts(a);
        let r: Vec<_> = t.iter().map(|x| (x.0, x.1.rem_euclid(d))).filter(|x| x.1 != 0).collect();
        let rk = k.rem_euclid(d);
        let a = self.mk_lin(rk, r);
        if self.lo(a) >= 0 && self.hi(a) < d {
            return a;
        }
        if let N::Ite(c, x, y) = self.nodes[a as usize] {
            if self.kval(x).is_some() && self.kval(y).is_some() {
                let x = self.modf(x, d);
                let y = self.modf(y, d);
                return self.ite(c, x, y);
            }
        }
        if let Some(v) = self.kval(a) {
            return self.k(v.rem_euclid(d));
        }
        // same block: a - d*q
        let (l, h) = (self.lo(a).div_euclid(d), self.hi(a).div_euclid(d));
        if l == h {
            return self.addk(a, -l * d);
        }
        self.mk(N::ModF(a, d), 0, d - 1, d == 2)
    }
    /// wrap to the signed range of width w
    pub fn wrap(&mut self, a: E, w: u32) -> E {
        if w == 1 {
            return self.modf(a, 2);
        }
        let m = 1i128 << w;
        let (lo, hi) = (-(m / 2), m / 2 - 1);
        if self.lo(a) >= lo && self.hi(a) <= hi {
            return a;
        }
        if self.lo(a) >= lo - m && self.hi(a) <= hi + m {
            let mut r = a;
            if self.hi(a) > hi {
                let kk = self.k(hi);
                let over = self.lt(kk, a);
                let am = self.addk(a, -m);
                r = self.ite(over, am, r);
            }
            if self.lo(a) < lo {
                let kk = self.k(lo);
                let under = self.lt(a, kk);
                let ap = self.addk(a, m);
                r = self.ite(under, ap, r);
            }
            // record the tight interval
            let e = r as usize;
            if self.iv[e].0 < lo {
                self.iv[e].0 = lo;
            }
            if self.iv[e].1 > hi {
                self.iv[e].1 = hi;
            }
            return r;
        }
        let s = self.addk(a, m / 2);
        let r = self.modf(s, m);
        self.addk(r, -(m / 2))
    }
    /// unsigned value of a signed w-bit value
    pub fn uns(&mut self, a: E, w: u32) -> E {
        if w == 1 || self.lo(a) >= 0 {
            return a;
        }
        let m = 1i128 << w;
        if self.hi(a) < 0 {
            return self.addk(a, m);
        }
        let z = self.k(0);
        let neg = self.lt(a, z);
        let ap = self.addk(a, m);
        let r = self.ite(neg, ap, a);
        let e = r as usize;
        self.iv[e].0 = self.iv[e].0.max(0);
        self.iv[e].1 = self.iv[e].1.min(m - 1);
        r
    }
    // ---- booleans ----------------------------------------------------------
    pub fn not(&mut self, a: E) -> E {
        match self.nodes[a as usize] {
            N::K(v) => {
                if v == 0 {
                    T
                } else {
                    F
                }
            }
            N::Not(x) => x,
            _ => self.mk(N::Not(a), 0, 1, true),
        }
    }
    fn compl(&self, a: E, b: E) -> bool {
        matches!(self.nodes[a as usize], N::Not(x) if x == b) || matches!(self.nodes[b as usize], N::Not(x) if x == a)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a == F || b == F || self.compl(a, b) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(N::And(a, b), 0, 1, true)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == T || b == T || self.compl(a, b) {
            return T;
        }
        if a == F || a == b {
            return b;
        }
        if b == F {
            return a;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(N::Or(a, b), 0, 1, true)
    }
    pub fn bite(&mut self, c: E, a: E, b: E) -> E {
        // boolean if-then-else
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == T {
            return self.or(c, b);
        }
        if a == F {
            let n = self.not(c);
            return self.and(n, b);
        }
        if b == T {
            let n = self.not(c);
            return self.or(n, a);
        }
        if b == F {
            return self.and(c, a);
        }
        let x = self.and(c, a);
        let n = self.not(c);
        let y = self.and(n, b);
        self.or(x, y)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if self.is_bool(a) && self.is_bool(b) {
            return self.bite(c, a, b);
        }
        if let N::Not(x) = self.nodes[c as usize] {
            return self.ite(x, b, a);
        }
        let mut a = a;
        let mut b = b;
        if let N::Ite(c2, x, _) = self.nodes[a as usize] {
            if c2 == c {
                a = x;
            }
        }
        if let N::Ite(c2, _, y) = self.nodes[b as usize] {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        let (mut lo, mut hi) = (self.lo(a).min(self.lo(b)), self.hi(a).max(self.hi(b)));
        // max / min patterns tighten the interval
        if let N::Le0(l) = self.nodes[c as usize] {
            let d = self.sub(a, b);
            let nd = self.scale(d, -1);
            let d1 = self.addk(d, 1);
            let nd1 = self.addk(nd, 1);
            if l == d || l == d1 {
                // c: a<=b (or a<b): min
                hi = self.hi(a).min(self.hi(b));
            } else if l == nd || l == nd1 {
                lo = self.lo(a).max(self.lo(b));
            }
        }
        if lo > hi {
            lo = self.lo(a).min(self.lo(b));
            hi = self.hi(a).max(self.hi(b));
        }
        self.mk(N::Ite(c, a, b), lo, hi, false)
    }
    pub fn le0(&mut self, l: E) -> E {
        let (lo, hi) = self.iv[l as usize];
        if hi <= 0 {
            return T;
        }
        if lo > 0 {
            return F;
        }
        let (k, t) = self.parts(l);
        if t.len() == 1 {
            let (a, c) = t[0];
            if self.is_bool(a) {
                let v0 = k <= 0;
                let v1 = k + c <= 0;
                return match (v0, v1) {
                    (true, true) => T,
                    (false, false) => F,
                    (false, true) => a,
                    (true, false) => self.not(a),
                };
            }
            if let N::Ite(cc, x, y) = self.nodes[a as usize] {
                let xl = { let s = self.scale(x, c); self.addk(s, k) };
                let yl = { let s = self.scale(y, c); self.addk(s, k) };
                let xc = self.hi(xl) <= 0 || self.lo(xl) > 0;
                let yc = self.hi(yl) <= 0 || self.lo(yl) > 0;
                if xc || yc {
                    let xb = self.le0(xl);
                    let yb = self.le0(yl);
                    return self.bite(cc, xb, yb);
                }
            }
        }
        let g = t.iter().fold(0, |g, x| gcd(g, x.1));
        let (k, t) = if g > 1 { (div_ceil(k, g), t.into_iter().map(|x| (x.0, x.1 / g)).collect()) } else { (k, t) };
        if t[0].1 < 0 {
            // not (1 - L <= 0)
            let t2: Vec<_> = t.into_iter().map(|x| (x.0, -x.1)).collect();
            let l2 = self.mk_lin(1 - k, t2);
            let e = self.le0_raw(l2);
            return self.not(e);
        }
        let l = self.mk_lin(k, t);
        self.le0_raw(l)
    }
    fn le0_raw(&mut self, l: E) -> E {
        let (lo, hi) = self.iv[l as usize];
        if hi <= 0 {
            return T;
        }
        if lo > 0 {
            return F;
        }
        self.mk(N::Le0(l), 0, 1, true)
    }
    pub fn eq0(&mut self, l: E) -> E {
        let (lo, hi) = self.iv[l as usize];
        if lo == 0 && hi == 0 {
            return T;
        }
        if lo > 0 || hi < 0 {
            return F;
        }
        let (k, t) = self.parts(l);
        if t.len() == 1 {
            let (a, c) = t[0];
            if k % c != 0 {
                return F;
            }
            if self.is_bool(a) {
                let v0 = k == 0;
                let v1 = k + c == 0;
                return match (v0, v1) {
                    (true, true) => T,
                    (false, false) => F,
                    (false, true) => a,
                    (true, false) => self.not(a),
                };
            }
            if let N::Ite(cc, x, y) = self.nodes[a as usize] {
                let xl = { let s = self.scale(x, c); self.addk(s, k) };
                let yl = { let s = self.scale(y, c); self.addk(s, k) };
                let dec = |s: &Self, e: E| s.lo(e) > 0 || s.hi(e) < 0 || (s.lo(e) == 0 && s.hi(e) == 0);
                if dec(self, xl) || dec(self, yl) {
                    let xb = self.eq0(xl);
                    let yb = self.eq0(yl);
                    return self.bite(cc, xb, yb);
                }
            }
        }
        let g = t.iter().fold(0, |g, x| gcd(g, x.1));
        if k % g != 0 {
            return F;
        }
        let s = if t[0].1 < 0 { -g } else { g };
        let t2: Vec<_> = t.into_iter().map(|x| (x.0, x.1 / s)).collect();
        let l = self.mk_lin(k / s, t2);
        // boundary cases become inequalities (x = lo of its range)
        self.mk(N::Eq0(l), 0, 1, true)
    }
    pub fn le(&mut self, a: E, b: E) -> E {
        let d = self.sub(a, b);
        self.le0(d)
    }
    pub fn lt(&mut self, a: E, b: E) -> E {
        let d = self.sub(a, b);
        let d = self.addk(d, 1);
        self.le0(d)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let d = self.sub(a, b);
        self.eq0(d)
    }
    pub fn max(&mut self, a: E, b: E) -> E {
        let c = self.le(b, a);
        self.ite(c, a, b)
    }
    pub fn min(&mut self, a: E, b: E) -> E {
        let c = self.le(a, b);
        self.ite(c, a, b)
    }
    fn tz(&self, e: E) -> u32 {
        let f = |v: i128| if v == 0 { 100 } else { v.trailing_zeros() };
        match &self.nodes[e as usize] {
            N::K(v) => f(*v),
            N::Lin(k, t) => t.iter().map(|x| f(x.1)).min().unwrap().min(f(*k)),
            _ => 0,
        }
    }
    /// bitwise op on signed w-bit values
    pub fn bit(&mut self, op: BinOp, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            let m = if w >= 127 { -1 } else { (1i128 << w) - 1 };
            let (ux, uy) = (x & m, y & m);
            let r = match op {
                BinOp::And => ux & uy,
                BinOp::Or => ux | uy,
                BinOp::Xor => ux ^ uy,
                BinOp::Shl => {
                    if uy < w as i128 {
                        ux << uy
                    } else {
                        0
                    }
                }
                BinOp::LShr => {
                    if uy < w as i128 {
                        ux >> uy
                    } else {
                        0
                    }
                }
                BinOp::AShr => x >> uy.min(w as i128 - 1),
                _ => unreachable!(),
            };
            let r = self.k(r);
            return self.wrap(r, w);
        }
        if w == 1 {
            return match op {
                BinOp::And => self.and(a, b),
                BinOp::Or => self.or(a, b),
                BinOp::Xor => {
                    let n = self.not(b);
                    self.bite(a, n, b)
                }
                _ => panic!("shift on i1"),
            };
        }
        let (a, b) = if self.kval(a).is_some() && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) { (b, a) } else { (a, b) };
        if let Some(y) = self.kval(b) {
            match op {
                BinOp::And => {
                    if y == 0 {
                        return self.k(0);
                    }
                    if y == -1 {
                        return a;
                    }
                    if y > 0 && (y + 1) & y == 0 {
                        return self.modf(a, y + 1);
                    }
                    if y < 0 && (-y) & (-y - 1) == 0 {
                        // clear low bits: a - a mod 2^k
                        let m = self.modf(a, -y);
                        return self.sub(a, m);
                    }
                    // contiguous mask 2^j*(2^k-1)
                    if y > 0 {
                        let j = y.trailing_zeros();
                        let z = y >> j;
                        if (z + 1) & z == 0 {
                            let q = self.divf(a, 1 << j);
                            let m = self.modf(q, z + 1);
                            return self.scale(m, 1 << j);
                        }
                    }
                }
                BinOp::Or => {
                    if y == 0 {
                        return a;
                    }
                    if y == -1 {
                        return b;
                    }
                }
                BinOp::Xor => {
                    if y == 0 {
                        return a;
                    }
                    if y == -1 {
                        let n = self.scale(a, -1);
                        return self.addk(n, -1);
                    }
                    if y == 1 && self.is_bool(a) {
                        return self.not(a);
                    }
                }
                BinOp::Shl => {
                    if y < 0 || y >= w as i128 {
                        return self.k(0);
                    }
                    let s = self.scale(a, 1i128 << y);
                    return self.wrap(s, w);
                }
                BinOp::LShr => {
                    if y < 0 || y >= w as i128 {
                        return self.k(0);
                    }
                    if y == 0 {
                        return a;
                    }
                    let u = self.uns(a, w);
                    return self.divf(u, 1i128 << y);
                }
                BinOp::AShr => {
                    let y = y.clamp(0, w as i128 - 1);
                    return self.divf(a, 1i128 << y);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor => return self.k(0),
                _ => {}
            }
        }
        if self.is_bool(a) && self.is_bool(b) {
            match op {
                BinOp::And => return self.and(a, b),
                BinOp::Or => return self.or(a, b),
                BinOp::Xor => {
                    let n = self.not(b);
                    return self.bite(a, n, b);
                }
                _ => {}
            }
        }
        if matches!(op, BinOp::Or | BinOp::Xor) {
            for (x, y) in [(a, b), (b, a)] {
                let z = self.tz(x).min(100);
                if self.lo(y) >= 0 && z > 0 && self.hi(y) < (1i128 << z) {
                    return self.add(x, y);
                }
            }
        }
        // distribute over ite with constant leaves
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            if let N::Ite(c, p, q) = self.nodes[x as usize] {
                if self.kval(p).is_some() && self.kval(q).is_some() {
                    let (r1, r2) = if sw { (self.bit(op, w, y, p), self.bit(op, w, y, q)) } else { (self.bit(op, w, p, y), self.bit(op, w, q, y)) };
                    return self.ite(c, r1, r2);
                }
            }
        }
        let m = 1i128 << w;
        let (mut lo, mut hi) = (-(m / 2), m / 2 - 1);
        let nonneg = self.lo(a) >= 0 && self.lo(b) >= 0;
        match op {
            BinOp::And => {
                if self.lo(a) >= 0 || self.lo(b) >= 0 {
                    lo = 0;
                    let mut h = hi;
                    if self.lo(a) >= 0 {
                        h = h.min(self.hi(a));
                    }
                    if self.lo(b) >= 0 {
                        h = h.min(self.hi(b));
                    }
                    hi = h;
                }
            }
            BinOp::Or | BinOp::Xor => {
                if nonneg {
                    lo = 0;
                    let mx = self.hi(a).max(self.hi(b)) as u128;
                    hi = hi.min((mx + 1).next_power_of_two() as i128 - 1);
                }
            }
            BinOp::LShr => {
                let ua = self.uns(a, w);
                let r = self.mk(N::Bit(op, w, ua, b), 0, self.hi(ua), false);
                return self.wrap(r, w);
            }
            BinOp::AShr => {
                lo = self.lo(a).min(0);
                hi = self.hi(a).max(0);
            }
            BinOp::Shl => {
                // result before wrapping: a * 2^b
                let bh = self.hi(b).clamp(0, w as i128 - 1);
                let l = self.lo(a).min(0).saturating_mul(1 << bh);
                let h = self.hi(a).max(0).saturating_mul(1 << bh);
                if self.lo(b) >= 0 && l >= lo && h <= hi {
                    lo = l;
                    hi = h;
                }
            }
            _ => {}
        }
        self.mk(N::Bit(op, w, a, b), lo, hi, false)
    }

    // ---- evaluation --------------------------------------------------------
    pub fn eval(&self, e: E, m: &mut Model) -> i128 {
        match &self.nodes[e as usize] {
            N::K(v) => return *v,
            N::Var(v) => return m.get(*v, self),
            _ => {}
        }
        if let Some(v) = m.memo.get(&e) {
            return *v;
        }
        let r = match &self.nodes[e as usize] {
            N::K(_) | N::Var(_) => unreachable!(),
            N::Lin(k, t) => {
                let mut s = *k;
                for (a, c) in t.iter() {
                    s += self.eval(*a, m) * c;
                }
                s
            }
            N::Ite(c, a, b) => {
                if self.eval(*c, m) != 0 {
                    self.eval(*a, m)
                } else {
                    self.eval(*b, m)
                }
            }
            N::Le0(l) => (self.eval(*l, m) <= 0) as i128,
            N::Eq0(l) => (self.eval(*l, m) == 0) as i128,
            N::Not(a) => 1 - self.eval(*a, m),
            N::And(a, b) => (self.eval(*a, m) != 0 && self.eval(*b, m) != 0) as i128,
            N::Or(a, b) => (self.eval(*a, m) != 0 || self.eval(*b, m) != 0) as i128,
            N::Mul(a, b) => self.eval(*a, m) * self.eval(*b, m),
            N::DivF(a, d) => self.eval(*a, m).div_euclid(*d),
            N::ModF(a, d) => self.eval(*a, m).rem_euclid(*d),
            N::Fp(o, w, a, b) => fp_eval(*o, *w, self.eval(*a, m), self.eval(*b, m)),
            N::Flt(a, b, w) => flt_bits(self.eval(*a, m), self.eval(*b, m), *w) as i128,
            N::Bit(op, w, a, b) => {
                let x = self.eval(*a, m);
                let y = self.eval(*b, m);
                let mask = (1i128 << w) - 1;
                let sgn = |v: i128| {
                    let v = v & mask;
                    if v >> (w - 1) != 0 {
                        v - (1i128 << w)
                    } else {
                        v
                    }
                };
                let uy = y & mask;
                match op {
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if uy < *w as i128 {
                            sgn((x & mask) << uy)
                        } else {
                            0
                        }
                    }
                    BinOp::LShr => {
                        if uy < *w as i128 {
                            (x & mask) >> uy
                        } else {
                            0
                        }
                    }
                    BinOp::AShr => x >> uy.min(*w as i128 - 1),
                    BinOp::UDiv => {
                        if y == 0 {
                            0
                        } else {
                            x / y
                        }
                    }
                    BinOp::URem => {
                        if y == 0 {
                            0
                        } else {
                            x % y
                        }
                    }
                    _ => panic!("eval bit"),
                }
            }
        };
        m.memo.insert(e, r);
        r
    }
    /// unsigned division of non-negative values
    pub fn udivrem(&mut self, op: BinOp, w: u32, a: E, b: E) -> E {
        let hi = if op == BinOp::UDiv { self.hi(a) } else { self.hi(a).min(self.hi(b)) };
        self.mk(N::Bit(op, w, a, b), 0, hi, false)
    }
    pub fn show(&self, e: E) -> String {
        match &self.nodes[e as usize] {
            N::K(v) => format!("{}", v),
            N::Var(v) => format!("v{}", self.vars[*v as usize].name),
            N::Lin(k, t) => {
                let mut s = format!("({}", k);
                for (a, c) in t.iter() {
                    s += &format!(" + {}*{}", c, self.show(*a));
                }
                s + ")"
            }
            N::Ite(c, a, b) => format!("ite({},{},{})", self.show(*c), self.show(*a), self.show(*b)),
            N::Le0(l) => format!("{}<=0", self.show(*l)),
            N::Eq0(l) => format!("{}==0", self.show(*l)),
            N::Not(a) => format!("!{}", self.show(*a)),
            N::And(a, b) => format!("({}&&{})", self.show(*a), self.show(*b)),
            N::Or(a, b) => format!("({}||{})", self.show(*a), self.show(*b)),
            n => format!("{:?}", n),
        }
    }
}

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<i128>, // by var id; missing = lo clamped to 0
    pub memo: FxMap<E, i128>,
}
impl Model {
    pub fn get(&self, v: u32, c: &Ctx) -> i128 {
        match self.vals.get(v as usize) {
            Some(x) if *x != i128::MIN => *x,
            _ => {
                let i = &c.vars[v as usize];
                0i128.clamp(i.lo, i.hi)
            }
        }
    }
}
