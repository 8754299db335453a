//! The pigment sequencing problem: the example's modules, compiled as they are (included, to reach
//! the fields of the state).
#![allow(dead_code)]
#[path = "/repo/examples/psp/utils.rs"]
mod utils;
mod psp {
    include!("/repo/examples/psp/psp.rs");
    pub fn time(s: &State) -> usize {
        s.time
    }
    /// may item i be produced in period t by the state's orders?
    pub fn due(s: &State, i: usize, t: usize) -> bool {
        s.u[i] >= t as i32
    }
    pub fn orders(p: &Psp) -> usize {
        p.nb_orders
    }
    pub fn reprice(p: &mut Psp) {
        p.mst = Psp::precompute_all_mst(p.nb_items, &p.changeover_cost);
    }
}
#[path = "../../core/src/vp.rs"]
mod vp;
use engineering::*;
use psp::*;
use std::io::BufReader;

fn p(i: u32) -> usize {
    vp::param(i) as usize
}
struct Rng(u64);
impl Rng {
    fn next(&mut self, m: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % m as u64) as usize
    }
}
/// Number of periods: param 50, of items: 51. The demands are drawn by param 53 (density param 55, in
/// percent) or, when that is 0, are symbolic. One in param 56 of the costs is symbolic (bounded by
/// param 57), the others are drawn; changeovers satisfy the triangle inequality.
fn instance() -> (Psp, Vec<Vec<bool>>) {
    let (h, n) = (p(50), p(51));
    let mut r = Rng(p(53) as u64 * 77 + 5);
    let mut dem: Vec<Vec<bool>>;
    loop {
        dem = vec![];
        for i in 0..n {
            dem.push((0..h).map(|t| {
                if p(55) == 0 {
                    vp::conc(vp::sym((400 + i * 10 + t) as u32, 0, 1)) == 1
                } else {
                    r.next(100) < p(55)
                }
            }).collect::<Vec<bool>>());
        }
        // param 74: instances that can be satisfied, with a number of orders
        let by = |t: usize| dem.iter().map(|d| d[..=t].iter().filter(|x| **x).count()).sum::<usize>();
        if p(55) == 0 || p(74) == 0 || by(h - 1) >= p(74) && (0..h).all(|t| by(t) <= t + 1) {
            break;
        }
    }
    let mut text = format!("{}\n{}\n{}\n\n", h, n, dem.iter().flatten().filter(|x| **x).count());
    for _ in 0..n {
        for _ in 0..n {
            text += "0 ";
        }
        text += "\n";
    }
    text += "\n";
    for _ in 0..n {
        text += "0 ";
    }
    text += "\n\n";
    for l in &dem {
        for x in l {
            text += if *x { "1 " } else { "0 " };
        }
        text += "\n";
    }
    text += "\n\n0\n";
    let mut pb = match Psp::try_from(BufReader::new(text.as_bytes())) {
        Ok(pb) => pb,
        Err(_) => {
            vp::check(false, 500);
            unreachable!()
        }
    };
    let every = p(56).max(1);
    let hi = if p(57) > 0 { p(57) as isize } else { 100 };
    let mut k = 0;
    let mut num = |id: u32, base: isize| -> usize {
        k += 1;
        if k % every == p(58) % every {
            vp::sym(id, 0, hi) as usize
        } else {
            base as usize
        }
    };
    let x: Vec<isize> = (0..n).map(|_| r.next(9) as isize).collect();
    for i in 0..n {
        for j in 0..n {
            if i != j {
                pb.changeover_cost[(i, j)] = num((100 + 10 * i + j) as u32, (x[i] - x[j]).abs());
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i != j && j != k && i != k {
                    vp::assume(pb.changeover_cost[(i, k)] <= pb.changeover_cost[(i, j)] + pb.changeover_cost[(j, k)]);
                }
            }
        }
    }
    for i in 0..n {
        pb.stocking_cost[i] = num(200 + i as u32, r.next(9) as isize);
    }
    if p(59) > 0 {
        reprice(&mut pb);
    }
    (pb, dem)
}
/// The value of a production plan (item or none for each period): the n-th last unit of an item is for
/// its n-th last order, which it must not be late for. None when some order is late or not produced,
/// or something is produced for nobody.
fn plan(pb: &Psp, dem: &[Vec<bool>], x: &[Option<usize>]) -> Option<isize> {
    let mut c = 0;
    for (i, d) in dem.iter().enumerate() {
        let orders: Vec<usize> = (0..d.len()).rev().filter(|t| d[*t]).collect();
        let made: Vec<usize> = (0..x.len()).rev().filter(|t| x[*t] == Some(i)).collect();
        if orders.len() != made.len() {
            return None;
        }
        for (o, m) in orders.iter().zip(&made) {
            if m > o {
                return None;
            }
            c += (pb.stocking_cost[i] * (o - m)) as isize;
        }
    }
    let mut last = None;
    for i in x.iter().flatten() {
        if let Some(l) = last {
            c += pb.changeover_cost[(l, *i)] as isize;
        }
        last = Some(*i);
    }
    Some(-c)
}
fn domain(pb: &Psp, s: &State) -> Vec<isize> {
    let mut v = vec![];
    let var = pb.next_variable(&mut std::iter::once(s)).unwrap();
    pb.for_each_in_domain(var, s, |d| v.push(d.value));
    v
}
/// number `code` in base items + 1 as a plan
fn decode(code: usize, h: usize, n: usize) -> Vec<Option<usize>> {
    let mut c = code;
    (0..h).map(|_| {
        let v = c % (n + 1);
        c /= n + 1;
        v.checked_sub(1)
    }).collect()
}
/// orders fixed: a random plan that is feasible
fn feasible(r: &mut Rng, dem: &[Vec<bool>], h: usize) -> Option<Vec<Option<usize>>> {
    let mut left: Vec<Vec<usize>> = dem.iter().map(|d| (0..d.len()).filter(|t| d[*t]).collect()).collect();
    let mut x = vec![None; h];
    for t in (0..h).rev() {
        let rem: usize = left.iter().map(|l| l.len()).sum();
        let cand: Vec<usize> = (0..left.len()).filter(|i| left[*i].last().map_or(false, |d| *d >= t)).collect();
        let idle = rem < t + 1;
        if cand.is_empty() && !idle {
            return None;
        }
        let k = r.next(cand.len() + idle as usize);
        if k < cand.len() {
            x[t] = Some(cand[k]);
            left[cand[k]].pop();
        }
    }
    if left.iter().all(|l| l.is_empty()) {
        Some(x)
    } else {
        None
    }
}
fn val(x: Option<usize>) -> isize {
    x.map_or(-1, |i| i as isize)
}

/// The model accepts exactly the plans that satisfy every order in time, at their cost; estimates are
/// admissible on the way.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_exact() {
    let (h, n) = (p(50), p(51));
    let (pb, dem) = instance();
    // any plan
    let x: Vec<Option<usize>> = if p(52) == 0 {
        (0..h).map(|t| (vp::conc(vp::sym(500 + t as u32, 0, n as isize)) as usize).checked_sub(1)).collect()
    } else {
        match feasible(&mut Rng(p(52) as u64), &dem, h) {
            Some(x) => x,
            None => return,
        }
    };
    let want = plan(&pb, &dem, &x);
    let mut s = pb.initial_state();
    let mut v = pb.initial_value();
    vp::check(v == 0 && pb.nb_variables() == h, 500);
    for t in (0..h).rev() {
        vp::check(pb.next_variable(&mut std::iter::once(&s)) == Some(Variable(t)), 501);
        let e = pb.estimate(&s);
        if let Some(w) = want {
            vp::check(v.saturating_add(e) >= w, 502);
        }
        if !domain(&pb, &s).contains(&val(x[t])) {
            vp::check(want.is_none(), 503);
            vp::reach(501);
            return;
        }
        let d = Decision { var: Variable(t), value: val(x[t]) };
        v += pb.transition_cost(&s, d);
        s = pb.transition(&s, d);
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 501);
    vp::check(want.is_some(), 504);
    vp::check(want.map_or(true, |w| v == w), 505);
    vp::reach(500);
    vp::out(500, v);
}

/// A plan followed through merged states: a unit that no merged order asks for is not produced.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_relax() {
    let (h, n) = (p(50), p(51));
    let (pb, dem) = instance();
    let rx = PspRelax;
    let mut r = Rng(p(52) as u64 * 131 + 7);
    let Some(x) = feasible(&mut r, &dem, h) else { return };
    let w = plan(&pb, &dem, &x);
    vp::check(w.is_some(), 511);
    let w = w.unwrap();
    let _ = n;
    let mut s = pb.initial_state();
    let mut v = 0isize;
    for t in (0..h).rev() {
        vp::check(v.saturating_add(pb.estimate(&s)) >= w, 512);
        let value = match x[t] {
            Some(i) if due(&s, i, t) => i as isize,
            _ => -1,
        };
        if !domain(&pb, &s).contains(&value) {
            vp::check(false, 513);
            return;
        }
        let d = Decision { var: Variable(t), value };
        let mut cost = pb.transition_cost(&s, d);
        let mut ns = pb.transition(&s, d);
        if p(54) >> t & 1 == 1 {
            let mut members = vec![];
            for _ in 0..1 + r.next(3) {
                if let Some(y) = feasible(&mut r, &dem, h) {
                    let mut o = pb.initial_state();
                    for k in (t..h).rev() {
                        o = pb.transition(&o, Decision { var: Variable(k), value: val(y[k]) });
                    }
                    members.push(o);
                }
            }
            members.insert(r.next(members.len() + 1), ns.clone());
            let merged = rx.merge(&mut members.iter());
            vp::check(time(&merged) == time(&ns), 515);
            cost = rx.relax(&s, &ns, &merged, d, cost);
            ns = merged;
            vp::reach(510);
        }
        v += cost;
        s = ns;
    }
    vp::check(pb.next_variable(&mut std::iter::once(&s)).is_none(), 516);
    vp::check(v >= w, 514);
    vp::reach(511);
    vp::out(510, v);
}

struct Wd(usize);
impl WidthHeuristic<State> for Wd {
    fn max_width(&self, s: &State) -> usize {
        if self.0 == 0 {
            PspWidth::new(p(50), 1).max_width(s)
        } else {
            self.0
        }
    }
}
/// A whole resolution of an instance: the cheapest plan.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_solve() {
    let (h, n) = (p(50), p(51));
    let (pb, dem) = instance();
    let rx = PspRelax;
    let w = Wd(p(72));
    let cut = if p(71) == 0 { CutsetType::LastExactLayer } else { CutsetType::Frontier };
    let (value, sol, lb, ub) = if p(70) == 2 {
        let mut s = BarrierParallelSolver::custom(&pb, &rx, &PspRanking, &w, cut, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    } else {
        let mut f = NoDupFrontier::new(&PspRanking);
        let mut s = ParallelSolver::custom(&pb, &rx, &PspRanking, &w, cut, &mut f, 1);
        s.maximize();
        (s.best_value(), s.best_solution(), s.best_lower_bound(), s.best_upper_bound())
    };
    let none = isize::MIN;
    let mut best = none;
    for code in 0..(n + 1).pow(h as u32) {
        if let Some(c) = plan(&pb, &dem, &decode(code, h, n)) {
            best = vp::max(best, c);
        }
    }
    vp::check(value.unwrap_or(none) == best, 520);
    vp::check(value.is_some() == sol.is_some(), 521);
    if let Some(sol) = sol {
        let mut x = vec![None; h];
        let mut seen = vec![0; h];
        for d in &sol {
            seen[d.var.id()] += 1;
            x[d.var.id()] = if d.value < 0 { None } else { Some(d.value as usize) };
        }
        vp::check(seen.iter().all(|c| *c == 1), 522);
        let w = plan(&pb, &dem, &x);
        vp::check(w.is_some(), 523);
        vp::check(w.map_or(true, |w| w == best), 523);
        vp::reach(520);
    } else {
        vp::reach(521);
    }
    vp::check(lb == ub, 524);
    vp::out(520, value.unwrap_or(none));
}

/// Instance files: numbers of free digits between drawn separators.
struct Text {
    b: Vec<u8>,
    r: Rng,
    k: usize,
    id: u32,
}
impl Text {
    fn new() -> Text {
        Text { b: vec![], r: Rng(p(53) as u64 * 91 + 3), k: 0, id: 1000 }
    }
    /// a number of 1 to param 54 digits, one number in param 56 with free digits, the others drawn
    fn num(&mut self, top: usize) -> isize {
        let n = 1 + self.r.next(top);
        self.k += 1;
        let free = self.k % p(56).max(1) == p(58) % p(56).max(1);
        let mut v = 0;
        for _ in 0..n {
            let d = if free { vp::sym(self.id, 0, 9) } else { self.r.next(10) as isize };
            self.id += 1;
            self.b.push(48 + d as u8);
            v = v * 10 + d;
        }
        v
    }
    fn plain(&mut self, v: usize) {
        self.b.extend_from_slice(v.to_string().as_bytes());
    }
    fn sep(&mut self, any: &[&str]) {
        let s = any[self.r.next(any.len())];
        self.b.extend_from_slice(s.as_bytes());
    }
}

/// A file of param 50 periods and param 51 items is read as it is written, the orders being free.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_parse() {
    let (h, n) = (p(50), p(51));
    let seps = [" ", "\t", "  "];
    let ends = ["\n", " \n", "\t\n", "\r\n"];
    let blank = ["\n", " \n", "\t\n"];
    let mut t = Text::new();
    t.plain(h);
    t.sep(&["\n", "\r\n"]);
    t.plain(n);
    t.sep(&["\n"]);
    let orders = t.num(2);
    t.sep(&["\n", "\r\n"]);
    t.sep(&blank);
    let mut cost = vec![];
    for _ in 0..n {
        cost.push(vec![]);
        for j in 0..n {
            let v = t.num(p(54));
            cost.last_mut().unwrap().push(v);
            t.sep(if j + 1 < n { &seps } else { &ends });
        }
    }
    t.sep(&blank);
    let mut stock = vec![];
    for i in 0..n {
        stock.push(t.num(p(54)));
        t.sep(if i + 1 < n { &seps } else { &ends });
    }
    t.sep(&blank);
    let mut dem = vec![];
    for _ in 0..n {
        dem.push(vec![]);
        for k in 0..h {
            let v = t.num(1);
            dem.last_mut().unwrap().push(v);
            t.sep(if k + 1 < h { &seps } else { &ends });
        }
    }
    let opt = if t.r.next(3) > 0 {
        t.sep(&["\n\n"]);
        let v = t.num(p(54));
        t.sep(&["\n", "", " \n"]);
        Some(v as usize)
    } else {
        t.sep(&["", "\n"]);
        None
    };
    let got = match Psp::try_from(BufReader::new(&t.b[..])) {
        Ok(pb) => pb,
        Err(_) => {
            vp::check(false, 520);
            unreachable!()
        }
    };
    vp::check(got.nb_periods == h && got.nb_items == n, 521);
    vp::check(psp::orders(&got) as isize == orders, 522);
    vp::check(got.optimum.is_some() == opt.is_some() && got.optimum.unwrap_or(0) == opt.unwrap_or(0), 523);
    for i in 0..n {
        vp::check(got.stocking_cost[i] as isize == stock[i], 524);
        for j in 0..n {
            vp::check(got.changeover_cost[(i, j)] as isize == cost[i][j], 525);
        }
        // the last period before t with an order, and the number of orders up to t
        let mut last = -1;
        let mut many = 0;
        for k in 0..h {
            vp::check(got.prev_demand[(i, k)] as isize == last, 526);
            last = vp::ite(dem[i][k] > 0, k as isize, last);
            many += vp::ite(dem[i][k] > 0, 1, 0);
            vp::check(got.rem_demand[(i, k)] == many, 527);
            vp::out(520, got.rem_demand[(i, k)]);
        }
        vp::check(got.prev_demand[(i, h)] as isize == last, 526);
    }
    vp::reach(520);
}
