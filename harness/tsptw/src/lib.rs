//! The travelling salesman problem with time windows: the example's modules, compiled as they are.
#![allow(dead_code)]
#[path = "/repo/examples/tsptw/heuristics.rs"]
mod heuristics;
#[path = "/repo/examples/tsptw/instance.rs"]
mod instance;
#[path = "/repo/examples/tsptw/model.rs"]
mod model;
#[path = "/repo/examples/tsptw/relax.rs"]
mod relax;
#[path = "/repo/examples/tsptw/state.rs"]
mod state;
#[path = "../../core/src/vp.rs"]
mod vp;
use engineering::*;
use heuristics::*;
use instance::*;
use model::Tsptw;
use relax::TsptwRelax;
use state::State;

fn p(i: u32) -> usize {
    vp::param(i) as usize
}
struct Rng(u64);
impl Rng {
    fn next(&mut self, m: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % m as u64) as usize
    }
    fn shuffled(&mut self, mut v: Vec<usize>) -> Vec<usize> {
        for i in (1..v.len()).rev() {
            v.swap(i, self.next(i + 1));
        }
        v
    }
}
/// The number of nodes is param 50. Distances (triangle inequality) and windows are symbolic, one in
/// param 56 of them if that is not 0 or 1; the others are drawn by param 53.
fn instance() -> Tsptw {
    let n = p(50);
    let mut r = Rng(p(53) as u64 * 77 + 5);
    let every = p(56).max(1);
    let hi = if p(57) > 0 { p(57) as isize } else { 100 };
    let mut k = 0;
    let mut num = |id: u32, lo: isize, hi: isize, base: isize| -> usize {
        k += 1;
        if k % every == p(58) % every {
            vp::sym(id, lo, hi) as usize
        } else {
            base as usize
        }
    };
    // points on a line make concrete distances metric
    let x: Vec<isize> = (0..n).map(|_| r.next(hi as usize) as isize).collect();
    let mut d = Matrix::new_default(n, n, 0);
    for i in 0..n {
        for j in 0..n {
            if i != j {
                d[(i, j)] = num((10 * i + j) as u32, 0, hi, (x[i] - x[j]).abs());
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i != j && j != k && i != k {
                    vp::assume(d[(i, k)] <= d[(i, j)] + d[(j, k)]);
                }
            }
        }
    }
    let mut timewindows = vec![];
    for i in 0..n {
        let b = r.next(2 * hi as usize) as isize;
        let earliest = if i == 0 { 0 } else { num(200 + i as u32, 0, 2 * hi, b / 2) };
        let latest = num(300 + i as u32, 0, 8 * hi, if i == 0 || r.next(4) > 0 { (n as isize + 1) * hi } else { b / 2 + hi * (2 + r.next(n) as isize) / 2 });
        vp::assume(earliest <= latest);
        timewindows.push(TimeWindow::new(earliest, latest));
    }
    Tsptw::new(TsptwInstance { nb_nodes: n as u16, distances: d, timewindows })
}
/// can the tour be done, and when is it over?
fn tour(pb: &Tsptw, t: &[usize]) -> (bool, isize) {
    let mut ok = true;
    let (mut at, mut now) = (0, 0);
    for &c in t {
        let tw = pb.instance.timewindows[c];
        let arr = now + pb.instance.distances[(at, c)] as isize;
        ok = vp::and(ok, arr <= tw.latest as isize);
        now = vp::max(arr, tw.earliest as isize);
        at = c;
    }
    (ok, now)
}
fn domain(pb: &Tsptw, s: &State) -> Vec<isize> {
    let mut v = vec![];
    let var = pb.next_variable(&mut std::iter::once(s)).unwrap();
    pb.for_each_in_domain(var, s, |d| v.push(d.value));
    v
}
fn decide(s: &State, c: usize) -> Decision {
    Decision { var: Variable(s.depth as usize), value: c as isize }
}

/// The model accepts a tour exactly when it respects the windows, gives it its duration as a cost,
/// and never estimates less than what can still be achieved.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_exact() {
    let n = p(50);
    let pb = instance();
    let mut r = Rng(p(51) as u64 + 1);
    let mut t: Vec<usize> = (1..n).collect();
    if p(51) > 0 {
        t = r.shuffled(t);
    }
    t.push(0);
    let (ok, end) = tour(&pb, &t);
    let mut s = pb.initial_state();
    let mut v = pb.initial_value();
    vp::check(v == 0, 300);
    vp::check(pb.nb_variables() == n, 300);
    for (k, &c) in t.iter().enumerate() {
        vp::check(pb.next_variable(&mut std::iter::once(&s)) == Some(Variable(k)), 301);
        vp::check(vp::or(!ok, v.saturating_add(pb.estimate(&s)) >= -end), 302);
        if !domain(&pb, &s).contains(&(c as isize)) {
            vp::check(!ok, 303);
            vp::reach(301);
            return;
        }
        let d = decide(&s, c);
        v += pb.transition_cost(&s, d);
        s = pb.transition(&s, d);
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 301);
    vp::check(ok, 304);
    vp::check(v == -end, 305);
    vp::reach(300);
    vp::out(300, v);
}

// Two listed findings (known_findings.json) concern relaxed diagrams. Bit 0 of param 94
// takes the code as it is for the first, bit 1 for the second; otherwise they are made up for, so
// that everything else is still decided:
// 1. the estimate of a state with optional cities charges one city too many (or sees one too few, or does not see that only the
//    return is left);
// 2. an arc redirected to a state merged with an earlier one does not get the time gained.
fn strict(k: usize) -> bool {
    p(94) >> k & 1 == 1
}
/// what the first finding may cost: the dearest of the cheapest ways into a city
fn one_city(pb: &Tsptw, s: &State) -> isize {
    let mut most = 0;
    for c in BitSetIter::new(s.maybe_visit.as_ref().unwrap()) {
        let mut least = isize::MAX;
        for o in 0..pb.nb_variables() {
            if o != c {
                least = vp::min(least, pb.instance.distances[(o, c)] as isize);
            }
        }
        most = vp::max(most, least);
    }
    most
}
/// what the second finding takes away
fn gained(from: &State, merged: &State) -> isize {
    if strict(1) {
        0
    } else {
        from.elapsed.earliest() as isize - merged.elapsed.earliest() as isize
    }
}
/// the example's model and relaxation, the two findings made up for
struct Mended<'a>(&'a Tsptw);
impl Problem for Mended<'_> {
    type State = State;
    fn nb_variables(&self) -> usize {
        self.0.nb_variables()
    }
    fn initial_state(&self) -> State {
        self.0.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.0.initial_value()
    }
    fn for_each_in_domain<F: FnMut(Decision)>(&self, var: Variable, state: &State, f: F) {
        self.0.for_each_in_domain(var, state, f)
    }
    fn transition(&self, state: &State, d: Decision) -> State {
        self.0.transition(state, d)
    }
    fn transition_cost(&self, state: &State, d: Decision) -> isize {
        self.0.transition_cost(state, d)
    }
    fn next_variable(&self, l: &mut dyn Iterator<Item = &State>) -> Option<Variable> {
        self.0.next_variable(l)
    }
    fn estimate(&self, state: &State) -> isize {
        if state.maybe_visit.is_some() && !strict(0) {
            isize::MAX
        } else {
            self.0.estimate(state)
        }
    }
}
struct MendedRelax<'a>(TsptwRelax<'a>);
impl Relaxation for MendedRelax<'_> {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State {
        self.0.merge(states)
    }
    fn relax(&self, source: &State, dest: &State, new: &State, d: Decision, cost: isize) -> isize {
        self.0.relax(source, dest, new, d, cost) + gained(dest, new)
    }
}

/// A tour followed through merged states: at every depth in the mask (param 54) the state reached is
/// merged with param 55 others of that depth, reached by other tours.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_relax() {
    let n = p(50);
    let pb = instance();
    let rx = TsptwRelax::new(&pb);
    let mut r = Rng(p(51) as u64 + 1);
    let mut t: Vec<usize> = r.shuffled((1..n).collect());
    t.push(0);
    let (ok, end) = tour(&pb, &t);
    vp::assume(ok);
    let mut s = pb.initial_state();
    let mut v = 0isize;
    for (k, &c) in t.iter().enumerate() {
        let e = pb.estimate(&s);
        if s.maybe_visit.is_none() || strict(0) {
            vp::check(v.saturating_add(e) >= -end, 312);
        } else if e != isize::MIN && k < n - 1 {
            vp::check(v + e + one_city(&pb, &s) >= -end, 317);
        } else {
            vp::reach(312);
        }
        if !domain(&pb, &s).contains(&(c as isize)) {
            vp::check(false, 313);
            return;
        }
        let d = decide(&s, c);
        let mut cost = pb.transition_cost(&s, d);
        let mut ns = pb.transition(&s, d);
        if p(54) >> (k + 1) & 1 == 1 {
            let mut members = vec![];
            for _ in 0..p(55) {
                // another state of the same depth
                let mut o = pb.initial_state();
                let u = r.shuffled((1..n).collect());
                for &c in u.iter().take(k + 1) {
                    let free = domain(&pb, &o).contains(&(c as isize));
                    vp::assume(free);
                    o = pb.transition(&o, decide(&o, c));
                }
                members.push(o);
            }
            members.insert(r.next(members.len() + 1), ns.clone());
            let merged = rx.merge(&mut members.iter());
            vp::check(merged.depth == ns.depth, 315);
            cost = rx.relax(&s, &ns, &merged, d, cost) + gained(&ns, &merged);
            ns = merged;
            vp::reach(310);
        }
        v += cost;
        s = ns;
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 316);
    vp::check(v >= -end, 314);
    vp::reach(311);
    vp::out(310, v);
}

struct Wd(usize);
impl WidthHeuristic<State> for Wd {
    fn max_width(&self, s: &State) -> usize {
        if self.0 == 0 {
            TsptwWidth::new(p(50), 1).max_width(s)
        } else {
            self.0
        }
    }
}
fn perms(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        f(v);
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, f);
        v.swap(k, i);
    }
}
/// A whole resolution of an instance: the shortest tour.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_solve() {
    let n = p(50);
    let inst = instance();
    let pb = Mended(&inst);
    let rx = MendedRelax(TsptwRelax::new(&inst));
    let w = Wd(p(72));
    let cut = if p(71) == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let (value, sol, lb, ub) = if p(70) == 2 {
        let mut s = BarrierParallelSolver::custom(&pb, &rx, &TsptwRanking, &w, cut, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    } else {
        let mut f = NoDupFrontier::new(&TsptwRanking);
        let mut s = ParallelSolver::custom(&pb, &rx, &TsptwRanking, &w, cut, &mut f, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    };
    let none = isize::MIN;
    let mut best = none;
    perms(&mut (1..n).collect(), 0, &mut |t| {
        let mut t = t.to_vec();
        t.push(0);
        let (ok, end) = tour(&inst, &t);
        best = vp::max(best, vp::ite(ok, -end, none));
    });
    vp::check(value.unwrap_or(none) == best, 320);
    vp::check(value.is_some() == sol.is_some(), 321);
    if let Some(mut sol) = sol {
        sol.sort_unstable_by_key(|d| d.var.id());
        let t: Vec<usize> = sol.iter().map(|d| d.value as usize).collect();
        let mut all = t.clone();
        all.sort_unstable();
        vp::check(all == (0..n).collect::<Vec<_>>() && t[n - 1] == 0, 322);
        let (ok, end) = tour(&inst, &t);
        vp::check(vp::and(ok, -end == best), 323);
        vp::reach(320);
    } else {
        vp::reach(321);
    }
    vp::check(lb == ub, 324);
    vp::out(320, value.unwrap_or(none));
}

/// Instance files: numbers of free digits between drawn separators.
struct Text {
    b: Vec<u8>,
    r: Rng,
    k: usize,
    id: u32,
}
impl Text {
    fn new() -> Text {
        Text { b: vec![], r: Rng(p(53) as u64 * 91 + 3), k: 0, id: 1000 }
    }
    /// a number of 1 to param 54 digits, one number in param 56 with free digits, the others drawn
    fn num(&mut self, top: usize) -> isize {
        let n = 1 + self.r.next(top);
        self.k += 1;
        let free = self.k % p(56).max(1) == p(58) % p(56).max(1);
        let mut v = 0;
        for _ in 0..n {
            let d = if free { vp::sym(self.id, 0, 9) } else { self.r.next(10) as isize };
            self.id += 1;
            self.b.push(48 + d as u8);
            v = v * 10 + d;
        }
        v
    }
    fn plain(&mut self, v: usize) {
        self.b.extend_from_slice(v.to_string().as_bytes());
    }
    fn sep(&mut self, any: &[&str]) {
        let s = any[self.r.next(any.len())];
        self.b.extend_from_slice(s.as_bytes());
    }
}

impl Text {
    /// a number with a fraction of up to param 55 digits: its value in ten-thousandths
    fn dec(&mut self) -> isize {
        let v = self.num(p(54)) * 10000;
        let k = self.r.next(p(55) + 1);
        if k == 0 {
            return v;
        }
        self.b.push(b'.');
        let a = self.b.len();
        let free = self.k % p(56).max(1) == p(58) % p(56).max(1);
        let mut w = 0;
        let mut unit = 10000;
        for _ in 0..k {
            let d = if free { vp::sym(self.id, 0, 9) } else { self.r.next(10) as isize };
            self.id += 1;
            self.b.push(48 + d as u8);
            unit /= 10;
            w += d * unit;
        }
        debug_assert!(self.b.len() - a == k);
        v + w
    }
}
/// read is what is written, up to the precision of the 32-bit floats it goes through
fn close(got: usize, written: isize) -> bool {
    let g = got as isize;
    let tol = if strict(2) { 0 } else { 1 + (written >> 22) };
    vp::and(g <= written + tol, g >= written - tol)
}
/// A file of param 50 nodes is read as it is written.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_parse() {
    let n = p(50);
    let seps = [" ", "\t", "   "];
    let ends = ["\n", " \n", "\n\n", "\r\n", "\n# 1 2 3\n"];
    let starts = ["", "", " ", "\t"];
    let mut t = Text::new();
    t.sep(&["", "\n", "# 9\n", "#\n\n"]);
    t.plain(n);
    t.sep(&["\n", "\t\n\n", " 7 \n"]);
    let mut m = vec![];
    for i in 0..n {
        m.push(vec![]);
        t.sep(&starts);
        for j in 0..n {
            let v = t.dec();
            m[i].push(v);
            t.sep(if j + 1 < n { &seps } else { &ends });
        }
    }
    let mut w = vec![];
    for _ in 0..n {
        t.sep(&starts);
        let e = t.dec();
        t.sep(&seps);
        let l = t.dec();
        t.sep(&["", " 5", "\t"]);
        t.sep(&ends);
        w.push((e, l));
    }
    t.sep(&["", "\n\n", "# 1 2 3", "# the end\n"]);
    let got = TsptwInstance::from(std::io::BufReader::new(&t.b[..]));
    vp::check(got.nb_nodes as usize == n, 330);
    vp::check(got.timewindows.len() == n, 331);
    for i in 0..n {
        vp::check(close(got.timewindows[i].earliest, w[i].0), 332);
        vp::check(close(got.timewindows[i].latest, w[i].1), 333);
        vp::out(332, got.timewindows[i].latest as isize);
        for j in 0..n {
            vp::check(close(got.distances[(i, j)], m[i][j]), 334);
            vp::out(334, got.distances[(i, j)] as isize);
        }
    }
    vp::reach(330);
}
