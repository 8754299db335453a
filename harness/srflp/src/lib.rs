//! The single row facility layout problem: the example's modules, compiled as they are.
#![allow(dead_code)]
#[path = "/repo/examples/srflp/heuristics.rs"]
mod heuristics;
#[path = "/repo/examples/srflp/instance.rs"]
mod instance;
#[path = "/repo/examples/srflp/model.rs"]
mod model;
#[path = "/repo/examples/srflp/relax.rs"]
mod relax;
#[path = "/repo/examples/srflp/state.rs"]
mod state;
#[path = "../../core/src/vp.rs"]
mod vp;
use engineering::*;
use heuristics::*;
use instance::*;
use model::Srflp;
use relax::SrflpRelax;
use state::State;

fn p(i: u32) -> usize {
    vp::param(i) as usize
}
struct Rng(u64);
impl Rng {
    fn next(&mut self, m: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % m as u64) as usize
    }
    fn shuffled(&mut self, mut v: Vec<usize>) -> Vec<usize> {
        for i in (1..v.len()).rev() {
            v.swap(i, self.next(i + 1));
        }
        v
    }
}
/// The number of departments is param 50. Param 52: 0 the flows are symbolic, 1 the lengths are; one
/// in param 56 of them if that is not 0 or 1; the others are drawn by param 53. Param 57 bounds them;
/// param 73 is added to all of them.
fn instance() -> Srflp {
    let n = p(50);
    let mut r = Rng(p(53) as u64 * 77 + 5);
    let every = p(56).max(1);
    let hi = if p(57) > 0 { p(57) as isize } else { 100 };
    let off = p(73) as isize;
    let mut k = 0;
    let mut num = |on: bool, id: u32, lo: isize, base: isize| -> isize {
        if !on {
            return off + base;
        }
        k += 1;
        if k % every == p(58) % every {
            vp::sym(id, off + lo, off + hi)
        } else {
            off + base
        }
    };
    let small = if p(59) > 0 { p(59) } else { 9 };
    let lengths: Vec<isize> = (0..n).map(|i| {
        let b = 1 + r.next(small) as isize;
        num(p(52) == 1, 100 + i as u32, 1, b)
    }).collect();
    let mut flows = Matrix::new_default(n, n, 0);
    for i in 0..n {
        for j in i + 1..n {
            let b = r.next(small) as isize;
            let f = num(p(52) == 0, (10 * i + j) as u32, 0, b);
            flows[(i, j)] = f;
            flows[(j, i)] = f;
        }
    }
    Srflp::new(SrflpInstance { nb_departments: n, lengths, flows })
}
/// twice the total flow times distance between centres
fn twice(pb: &Srflp, t: &[usize]) -> isize {
    let i = &pb.instance;
    let mut c = 0;
    for a in 0..t.len() {
        for b in a + 1..t.len() {
            let mut d = i.lengths[t[a]] + i.lengths[t[b]];
            for x in &t[a + 1..b] {
                d += 2 * i.lengths[*x];
            }
            c += d * i.flows[(t[a], t[b])];
        }
    }
    c
}
/// twice the part of the cost that does not depend on the order
fn twice_root(pb: &Srflp) -> isize {
    let i = &pb.instance;
    let n = i.nb_departments;
    let mut c = 0;
    for a in 0..n {
        for b in a + 1..n {
            c += (i.lengths[a] + i.lengths[b]) * i.flows[(a, b)];
        }
    }
    c
}
/// the value of an arrangement
fn worth(pb: &Srflp, t: &[usize]) -> isize {
    let i = &pb.instance;
    let mut c = 0;
    for a in 0..t.len() {
        for b in a + 1..t.len() {
            for x in &t[a + 1..b] {
                c += i.lengths[*x] * i.flows[(t[a], t[b])];
            }
        }
    }
    -c
}
fn domain(pb: &Srflp, s: &State) -> Vec<isize> {
    let mut v = vec![];
    let var = pb.next_variable(&mut std::iter::once(s)).unwrap();
    pb.for_each_in_domain(var, s, |d| v.push(d.value));
    v
}
fn decide(s: &State, c: usize) -> Decision {
    Decision { var: Variable(s.depth as usize), value: c as isize }
}

/// An arrangement is accepted and costs what it costs; every estimate on the way is admissible; only
/// departments not placed yet can be placed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_exact() {
    let n = p(50);
    let pb = instance();
    let mut r = Rng(p(51) as u64 + 1);
    let t: Vec<usize> = r.shuffled((0..n).collect());
    let end = worth(&pb, &t);
    let mut s = pb.initial_state();
    let mut v = pb.initial_value();
    vp::check(pb.nb_variables() == n, 400);
    for (k, &c) in t.iter().enumerate() {
        vp::check(pb.next_variable(&mut std::iter::once(&s)) == Some(Variable(k)), 401);
        if k > 0 {
            vp::check(v.saturating_add(pb.estimate(&s)) >= end, 402);
        }
        let mut dom = domain(&pb, &s);
        dom.sort_unstable();
        let mut rest: Vec<isize> = t[k..].iter().map(|x| *x as isize).collect();
        rest.sort_unstable();
        vp::check(dom == rest, 403);
        let d = decide(&s, c);
        v += pb.transition_cost(&s, d);
        s = pb.transition(&s, d);
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 401);
    vp::check(twice_root(&pb) - 2 * v == twice(&pb, &t), 405);
    vp::reach(400);
    vp::out(400, v);
}

/// An arrangement followed through merged states: at every depth in the mask (param 54) the state
/// reached is merged with param 55 others of that depth, reached by other arrangements.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_relax() {
    let n = p(50);
    let pb = instance();
    let rx = SrflpRelax::new(&pb);
    let mut r = Rng(p(51) as u64 + 1);
    let t: Vec<usize> = r.shuffled((0..n).collect());
    let end = worth(&pb, &t);
    let mut s = pb.initial_state();
    let mut v = 0isize;
    for (k, &c) in t.iter().enumerate() {
        if k > 0 {
            vp::check(v.saturating_add(pb.estimate(&s)) >= end, 412);
        }
        if !domain(&pb, &s).contains(&(c as isize)) {
            vp::check(false, 413);
            return;
        }
        let d = decide(&s, c);
        let mut cost = pb.transition_cost(&s, d);
        let mut ns = pb.transition(&s, d);
        if p(54) >> (k + 1) & 1 == 1 {
            let mut members = vec![];
            for _ in 0..p(55) {
                let mut o = pb.initial_state();
                let u = r.shuffled((0..n).collect());
                for &c in u.iter().take(k + 1) {
                    o = pb.transition(&o, decide(&o, c));
                }
                members.push(o);
            }
            members.insert(r.next(members.len() + 1), ns.clone());
            let merged = rx.merge(&mut members.iter());
            vp::check(merged.depth == ns.depth, 415);
            cost = rx.relax(&s, &ns, &merged, d, cost);
            ns = merged;
            vp::reach(410);
        }
        v += cost;
        s = ns;
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 416);
    vp::check(v >= end, 414);
    vp::reach(411);
    vp::out(410, v);
}

struct Wd(usize);
impl WidthHeuristic<State> for Wd {
    fn max_width(&self, s: &State) -> usize {
        if self.0 == 0 {
            SrflpWidth::new(p(50), 1).max_width(s)
        } else {
            self.0
        }
    }
}
fn perms(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        f(v);
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, f);
        v.swap(k, i);
    }
}
/// A whole resolution of an instance: the cheapest arrangement.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_solve() {
    let n = p(50);
    let pb = instance();
    let rx = SrflpRelax::new(&pb);
    let w = Wd(p(72));
    let cut = if p(71) == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let (value, sol, lb, ub) = if p(70) == 2 {
        let mut s = BarrierParallelSolver::custom(&pb, &rx, &SrflpRanking, &w, cut, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    } else {
        let mut f = NoDupFrontier::new(&SrflpRanking);
        let mut s = ParallelSolver::custom(&pb, &rx, &SrflpRanking, &w, cut, &mut f, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    };
    let mut best = isize::MIN;
    perms(&mut (0..n).collect(), 0, &mut |t| {
        best = vp::max(best, worth(&pb, t));
    });
    vp::check(value == Some(best), 420);
    vp::check(sol.is_some(), 421);
    if let Some(mut sol) = sol {
        sol.sort_unstable_by_key(|d| d.var.id());
        let t: Vec<usize> = sol.iter().map(|d| d.value as usize).collect();
        let mut all = t.clone();
        all.sort_unstable();
        vp::check(all == (0..n).collect::<Vec<_>>(), 422);
        vp::check(worth(&pb, &t) == best, 423);
        vp::reach(420);
    }
    vp::check(lb == ub, 424);
    vp::out(420, best);
}

/// Instance files: numbers of free digits between drawn separators.
struct Text {
    b: Vec<u8>,
    r: Rng,
    k: usize,
    id: u32,
}
impl Text {
    fn new() -> Text {
        Text { b: vec![], r: Rng(p(53) as u64 * 91 + 3), k: 0, id: 1000 }
    }
    /// a number of 1 to param 54 digits, one number in param 56 with free digits, the others drawn
    fn num(&mut self, top: usize) -> isize {
        let n = 1 + self.r.next(top);
        self.k += 1;
        let free = self.k % p(56).max(1) == p(58) % p(56).max(1);
        let mut v = 0;
        for _ in 0..n {
            let d = if free { vp::sym(self.id, 0, 9) } else { self.r.next(10) as isize };
            self.id += 1;
            self.b.push(48 + d as u8);
            v = v * 10 + d;
        }
        v
    }
    fn plain(&mut self, v: usize) {
        self.b.extend_from_slice(v.to_string().as_bytes());
    }
    fn sep(&mut self, any: &[&str]) {
        let s = any[self.r.next(any.len())];
        self.b.extend_from_slice(s.as_bytes());
    }
}

/// A file of param 50 departments is read as it is written.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_parse() {
    let n = p(50);
    let seps = [" ", "\t", ",", ", ", "  "];
    let ends = ["\n", " \n", "\n\n", "\r\n", ",\t\n", "\n \n"];
    let starts = ["", "", " ", "\t"];
    let mut t = Text::new();
    t.sep(&["", "\n"]);
    t.plain(n);
    t.sep(&["\n", "\t\t\n\n", " 7 \n"]);
    let mut l = vec![];
    t.sep(&starts);
    for i in 0..n {
        l.push(t.num(p(54)));
        t.sep(if i + 1 < n { &seps } else { &ends });
    }
    let mut m = vec![];
    for i in 0..n {
        m.push(vec![]);
        t.sep(&starts);
        for j in 0..n {
            let neg = t.r.next(9) == 8;
            t.sep(if neg { &["-"] } else { &["", "", "", "+"] });
            let v = t.num(p(54));
            m[i].push(if neg { -v } else { v });
            t.sep(if j + 1 < n { &seps } else { &ends });
        }
    }
    t.sep(&["", "\n\n", "1 2 3\n", "the end"]);
    let got = SrflpInstance::from(std::io::BufReader::new(&t.b[..]));
    vp::check(got.nb_departments == n, 430);
    vp::check(got.lengths.len() == n, 431);
    for i in 0..n {
        vp::check(got.lengths[i] == l[i], 432);
        vp::out(430, got.lengths[i]);
        for j in 0..n {
            // two different numbers for the two directions: the flow is their sum
            let (a, b) = (m[i][j], m[j][i]);
            vp::check(got.flows[(i, j)] == vp::ite(i == j || a == b, a, a + b), 433);
            vp::out(431, got.flows[(i, j)]);
        }
    }
    vp::reach(430);
}
