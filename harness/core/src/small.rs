//! Frontiers, utilities and names: the parts that need no whole resolution.
use crate::model::*;
use crate::{p, vp};
use bitset_fixed::BitSet;
use engineering::utils::{BitSetIter, LexBitSet, Matrix};
use engineering::xputils::SolverType;
use engineering::*;
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

pub const P_FR: u32 = 0; // 0 SimpleFrontier, 1 NoDupFrontier
pub const P_OPS: u32 = 40; // operations, base 8: 1..=6 push state (op-1), 7 pop, 0 end
pub const P_RKM: u32 = 41; // ranking: 0 by state, 1 all equal, 2 by state reversed
pub const P_FINAL: u32 = 42; // 0 drain at the end, 1 clear and reuse

const CLEAR: usize = 1000;
struct FRk(usize);
impl StateRanking for FRk {
    type State = u8;
    fn compare(&self, a: &u8, b: &u8) -> Ordering {
        match self.0 {
            0 => a.cmp(b),
            1 => Ordering::Equal,
            _ => b.cmp(a),
        }
    }
}
#[derive(Clone, Copy)]
struct Live {
    state: u8,
    value: isize,
    ub: isize,
    tag: usize,
}

/// pushes and pops in a fixed pattern, with free values and bounds
fn frontier<F: Frontier<State = u8>>(f: &mut F, dup: bool) {
    let mut ops = vec![];
    let mut o = p(P_OPS);
    while o > 0 {
        ops.push(o % 8);
        o /= 8;
    }
    // a long history drawn from param 43: 44 operations on 45 states, one push in 46 free, the others in 0..47
    let mut x = p(43);
    let mut draw = move |n: usize| {
        x = (x * 1103515245 + 12345) % 2147483648;
        x / 65536 % n
    };
    if p(43) != 0 {
        for i in 0..p(44) {
            let c = draw(100);
            // grow first, then as many pushes as pops
            let pop = if i < p(44) / 2 { 20 } else { 60 };
            ops.push(if c == 99 && i > 4 { CLEAR } else if c < pop { 7 } else { let k = 1 + draw(p(45)); if k >= 7 { k + 1 } else { k } });
        }
    }
    let npush = ops.iter().filter(|x| **x != 7 && **x != CLEAR).count();
    for _ in 0..npush + 1 {
        ops.push(7);
    }
    if p(P_FINAL) == 1 {
        ops.insert(npush, CLEAR);
    }
    // everything pushed since its state was last popped
    let mut live: Vec<Live> = vec![];
    let mut tag = 0;
    for o in ops {
        match o {
            CLEAR => {
                f.clear();
                live.clear();
                vp::reach(102);
            }
            7 => {
                let got = f.pop();
                vp::check(got.is_some() == !live.is_empty(), 100);
                if let Some(g) = got {
                    vp::reach(100);
                    // the greatest upper bound comes out first
                    for l in &live {
                        vp::check(l.ub <= g.ub, 101);
                    }
                    // and among equal bounds, the state the ranking prefers
                    let rk = FRk(p(P_RKM));
                    for (i, l) in live.iter().enumerate() {
                        if rk.compare(&l.state, &*g.state) == Ordering::Greater {
                            // the bound of a state is the greatest one pushed for it
                            let mut u = l.ub;
                            if !dup {
                                for (j, o) in live.iter().enumerate() {
                                    if j != i && o.state == l.state {
                                        u = vp::max(u, o.ub);
                                    }
                                }
                            }
                            vp::check(u < g.ub, 107);
                        }
                    }
                    let t = if g.path.len() == 1 { g.path[0].value as usize } else { usize::MAX };
                    if dup {
                        // exactly one of the pushed nodes, unchanged
                        let k = live.iter().position(|l| l.tag == t);
                        vp::check(k.is_some(), 102);
                        let l = live.swap_remove(k.unwrap());
                        vp::check(*g.state == l.state && g.value == l.value, 103);
                        vp::check(g.ub == l.ub, 104);
                    } else {
                        // the representative of its state: the best value with its own path, the greatest bound
                        let same: Vec<Live> = live.iter().copied().filter(|l| l.state == *g.state).collect();
                        vp::check(!same.is_empty(), 110);
                        let mut okp = false;
                        let mut oku = false;
                        for l in &same {
                            vp::check(l.value <= g.value, 111);
                            vp::check(l.ub <= g.ub, 112);
                            okp = vp::or(okp, vp::and(l.tag == t, l.value == g.value));
                            oku = vp::or(oku, l.ub == g.ub);
                        }
                        vp::check(okp, 113);
                        vp::check(oku, 114);
                        if same.len() > 1 {
                            vp::reach(101);
                        }
                        live.retain(|l| l.state != *g.state);
                    }
                    vp::out(100, g.ub);
                    vp::out(101, g.value);
                }
            }
            o => {
                let fix = p(43) != 0 && tag % p(46) != p(46) - 1;
                let lim = if p(43) != 0 { p(47) as isize } else { lim() };
                let l = Live {
                    state: o as u8 - 1,
                    value: if fix { draw(p(47)) as isize } else { vp::sym(7000 + tag as u32, -lim, lim) },
                    ub: if fix { draw(p(47)) as isize } else { vp::sym(7100 + tag as u32, -lim, lim) },
                    tag,
                };
                f.push(SubProblem { state: Arc::new(l.state), value: l.value, ub: l.ub, path: vec![Decision { var: Variable(0), value: tag as isize }] });
                live.push(l);
                tag += 1;
            }
        }
        let n = if dup {
            live.len()
        } else {
            let mut s: Vec<u8> = live.iter().map(|l| l.state).collect();
            s.sort();
            s.dedup();
            s.len()
        };
        vp::check(f.len() == n, 105);
        vp::check(f.is_empty() == (n == 0), 106);
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_front() {
    let rk = FRk(p(P_RKM));
    if p(P_FR) == 0 {
        frontier(&mut SimpleFrontier::new(&rk), true);
    } else {
        frontier(&mut NoDupFrontier::new(&rk), false);
    }
}

fn bits(id: u32, size: usize, masks: &[isize]) -> BitSet {
    let mut b = BitSet::new(size);
    for (i, w) in b.buffer_mut().iter_mut().enumerate() {
        *w = vp::sym(id + i as u32, isize::MIN, isize::MAX) as u64 & masks[i % masks.len()] as u64;
    }
    b.chomp();
    b
}
fn bit(b: &BitSet, i: usize) -> bool {
    b.buffer()[i / 64] >> (i % 64) & 1 == 1
}

/// BitSetIter over sets of param 50 elements whose words are free under the masks 51 and 52, the
/// first param 53 items (0: all)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bits() {
    let size = p(50);
    let b = bits(8000, size, &[vp::param(51), vp::param(52)]);
    let mut it = BitSetIter::new(&b);
    let lim = if p(53) == 0 { usize::MAX } else { p(53) };
    let mut next = 0usize; // everything below has been accounted for
    let mut n = 0;
    while n < lim {
        match it.next() {
            Some(x) => {
                vp::check(x >= next && x < size, 120);
                // nothing skipped, and the element is in the set
                let mut skipped = false;
                for i in next..x {
                    skipped = vp::or(skipped, bit(&b, i));
                }
                vp::check(!skipped, 121);
                vp::check(bit(&b, x), 122);
                next = x + 1;
                n += 1;
                vp::reach(120);
                vp::out(120, x as isize);
            }
            None => {
                let mut skipped = false;
                for i in next..size {
                    skipped = vp::or(skipped, bit(&b, i));
                }
                vp::check(!skipped, 123);
                vp::check(it.next().is_none(), 124);
                vp::reach(121);
                return;
            }
        }
    }
}

/// the sign of a lexicographic comparison of the bits, lowest index first
fn lex(a: &BitSet, b: &BitSet, n: usize) -> isize {
    let word = |s: &BitSet, w: usize| s.buffer().get(w).copied().unwrap_or(0);
    for w in 0..(n + 63) / 64 {
        let d = word(a, w) ^ word(b, w);
        if d != 0 {
            // one path for each first difference: whatever way the code compares is easy to decide on it
            let mut i = 0;
            while i < 63 && d & (u64::MAX >> (63 - i)) == 0 {
                i += 1;
            }
            return if word(a, w) >> i & 1 == 1 { 1 } else { -1 };
        }
    }
    0
}
fn sign(o: Ordering) -> isize {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// LexBitSet on sets of param 50 and param 54 elements
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lex() {
    let m = [vp::param(51), vp::param(52)];
    let (s, t) = (p(50), p(54));
    let a = bits(8000, s, &m);
    let b = bits(8010, t, &m);
    let n = s.max(t);
    let (x, y) = (LexBitSet(&a), LexBitSet(&b));
    let expected = lex(&a, &b, n);
    let c = x.cmp(&y);
    vp::reach(130 + (sign(c) + 1) as u32);
    vp::check(expected == sign(c), 130);
    vp::check(sign(y.cmp(&x)) == -sign(c), 131);
    vp::check(x.partial_cmp(&y) == Some(c), 132);
    vp::check((x == y) == (c == Ordering::Equal), 133);
    vp::check(x.cmp(&x) == Ordering::Equal, 134);
    vp::out(130, sign(c));
}

/// Matrix of param 50 rows and param 51 columns: distinct positions are distinct cells
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_matrix() {
    let (n, m) = (p(50), p(51));
    let mut x: Matrix<isize> = if p(52) == 0 { Matrix::new(m, n) } else { Matrix::new_default(m, n, 0) };
    let (a, b, c, d) = (vp::sym(1, 0, n as isize - 1) as usize, vp::sym(2, 0, m as isize - 1) as usize, vp::sym(3, 0, n as isize - 1) as usize, vp::sym(4, 0, m as isize - 1) as usize);
    let v = vp::sym(5, -lim(), lim());
    vp::check(x[(a, b)] == 0, 140);
    x[(a, b)] = v;
    vp::check(x[(a, b)] == v, 141);
    if a == c && b == d {
        vp::reach(140);
    } else {
        vp::reach(141);
        vp::check(x[(c, d)] == 0, 142);
        x[(c, d)] = 7;
        vp::check(x[(a, b)] == v, 143);
    }
    vp::out(140, x[(c, d)]);
}

/// Every string of param 50 ASCII characters is accepted exactly when it is the name of a value,
/// and that value prints as the string.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names() {
    let n = p(50);
    let mut s: Vec<u8> = vec![];
    for i in 0..n {
        s.push(vp::sym(100 + i as u32, 0, 127) as u8);
    }
    let s = unsafe { std::str::from_utf8_unchecked(&s) };
    fn go<T: FromStr + ToString + PartialEq + Copy>(s: &str, all: &[(T, &str)], id: u32) {
        match T::from_str(s) {
            Ok(v) => {
                vp::reach(150);
                let k = all.iter().position(|x| x.0 == v);
                vp::check(k.is_some(), id);
                let (v, name) = all[k.unwrap()];
                vp::check(name.len() == s.len(), id + 1);
                for (a, b) in name.bytes().zip(s.bytes()) {
                    vp::check(a == b, id + 1);
                }
                let t = v.to_string();
                vp::check(t.len() == s.len(), id + 2);
                for (a, b) in t.bytes().zip(s.bytes()) {
                    vp::check(a == b, id + 2);
                }
            }
            Err(_) => {
                vp::reach(151);
                for (_, name) in all {
                    let mut same = name.len() == s.len();
                    for (a, b) in name.bytes().zip(s.bytes()) {
                        same = vp::and(same, a == b);
                    }
                    vp::check(!same, id + 3);
                }
            }
        }
    }
    match p(51) {
        0 => go(s, &[(CutsetType::LastExactLayer, "lel"), (CutsetType::Frontier, "frontier")], 150),
        1 => go(s, &[(SolverType::Parallel, "parallel"), (SolverType::Barrier, "barrier")], 154),
        _ => go(s, &[(CompilationType::Exact, "exact"), (CompilationType::Relaxed, "relaxed"), (CompilationType::Restricted, "restricted")], 160),
    }
}

// ---- the time-limited runner ------------------------------------------------------------------
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
extern "C" {
    fn vp_acquire(p: *const u64, mode: u32);
    fn vp_release(p: *const u64, mode: u32);
    fn vp_done();
    fn vp_yield();
}
struct Word(std::cell::UnsafeCell<u64>);
unsafe impl Sync for Word {}
static STEP: [Word; 3] = [const { Word(std::cell::UnsafeCell::new(0)) }; 3];
/// a point at which another thread may take over
fn step(k: usize) {
    unsafe {
        vp_acquire(STEP[k].0.get(), 0);
        vp_release(STEP[k].0.get(), 0);
    }
}
static BEGUN: AtomicIsize = AtomicIsize::new(0);
static ENDED: AtomicIsize = AtomicIsize::new(0);
static EXIT_BEGUN: AtomicIsize = AtomicIsize::new(0);
static EXIT_ENDED: AtomicIsize = AtomicIsize::new(0);
static IN_TIME: AtomicBool = AtomicBool::new(false);
static EXITED: AtomicBool = AtomicBool::new(false);

/// called in place of the end of the process
#[no_mangle]
pub extern "C" fn vp_exit(code: i32) {
    step(2);
    vp::check(!EXITED.swap(true, SeqCst), 300);
    vp::check(code == 0 || code == 1, 301);
    if code == 0 {
        // the action came to its end, and the time limit has not struck
        vp::check(BEGUN.load(SeqCst) == 1 && ENDED.load(SeqCst) == 1, 302);
        vp::check(EXIT_BEGUN.load(SeqCst) == 0, 303);
        vp::reach(300);
    } else {
        vp::check(vp::param(93) == 0 || !IN_TIME.load(SeqCst), 307);
        // the limit struck: the closing action was run, once and to its end
        vp::check(EXIT_BEGUN.load(SeqCst) == 1 && EXIT_ENDED.load(SeqCst) == 1, 304);
        vp::reach(301 + (ENDED.load(SeqCst) == 1) as u32);
    }
    vp::out(300, code as isize);
    unsafe { vp_done() }
}

/// The time-limited runner: param 91: the action never ends, 93: no thread is ever preempted
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_timeout() {
    let limit = std::time::Duration::from_millis(1000 * vp::conc(vp::sym(1, 0, vp::param(92))) as u64);
    let na = vp::sym(2, 0, vp::param(90));
    let ne = vp::sym(3, 0, vp::param(90));
    let start = std::time::Instant::now();
    engineering::xputils::timeout(
        limit,
        move || {
            BEGUN.fetch_add(1, SeqCst);
            if vp::param(93) == 1 {
                unsafe { vp_yield() }
            }
            let mut k = 0;
            while k < na {
                step(0);
                k += 1;
            }
            if vp::param(91) == 1 {
                // held already
                unsafe {
                    vp_acquire(STEP[0].0.get(), 0);
                    vp_acquire(STEP[0].0.get(), 0);
                }
            }
            ENDED.fetch_add(1, SeqCst);
            step(0);
            // the clock moves by milliseconds, the limit is in seconds
            IN_TIME.store(start.elapsed() < limit, SeqCst);
        },
        move || {
            EXIT_BEGUN.fetch_add(1, SeqCst);
            let t = start.elapsed();
            vp::check(t >= limit, 305);
            vp::check(t <= limit + std::time::Duration::from_millis(100), 308);
            step(1);
            let mut k = 0;
            while k < ne {
                step(1);
                k += 1;
            }
            EXIT_ENDED.fetch_add(1, SeqCst);
            step(1);
        },
    );
    vp::check(false, 306);
}
