//! Entry points executed symbolically (and natively for replays).
mod model;
mod dd;
mod small;
mod vp;
use engineering::xputils::{resolution_header, solve_timeout, SolverType};
use engineering::*;
use model::*;
use std::sync::atomic::{AtomicUsize, Ordering};

// parameters shared by the entries
pub const P_SOLVER: u32 = 0; // 0 Parallel+SimpleFrontier, 1 Parallel+NoDupFrontier, 2 Barrier
pub const P_CUTSET: u32 = 1; // 0 last exact layer, 1 frontier
pub const P_THREADS: u32 = 2;
pub const P_WIDTH: u32 = 3;
pub const P_SKEL: u32 = 4;
pub const P_N: u32 = 5;
pub const P_D: u32 = 6;
pub const P_W: u32 = 7; // base states per layer
pub const P_T: u32 = 8; // terminal base states
pub const P_INFEAS: u32 = 9;
pub const P_RUB: u32 = 10;
pub const P_SLACK: u32 = 11;
pub const P_INIT: u32 = 12;
pub const P_CONC: u32 = 13; // one cost in P_CONC is symbolic (0: all)
pub const P_API: u32 = 14; // 0 maximize, 1 never interrupted, 2 the cutoff of h_intr
pub const P_NBT: u32 = 25; // not 0: number of threads set afterwards
pub const P_POLLS: u32 = 23; // polls of the cutoff whose answer is symbolic
pub const P_LATER: u32 = 24; // answer of the later polls

fn p(i: u32) -> usize {
    vp::param(i) as usize
}
fn model() -> M {
    let sk = Skel::make(vp::param(P_SKEL), p(P_N), p(P_D), p(P_W), p(P_T), p(P_INFEAS) as u64);
    M::make(sk, vp::param(P_RUB), vp::param(P_SLACK), vp::param(P_INIT), p(P_CONC) as u64)
}
fn cutset() -> CutsetType {
    if p(P_CUTSET) == 0 {
        CutsetType::LastExactLayer
    } else {
        CutsetType::Frontier
    }
}

struct Res {
    polls: usize,
    value: Option<isize>,
    sol: Option<Vec<Decision>>,
    lb: isize,
    ub: isize,
    status: Option<ResolutionStatus>,
    explored: usize,
    explored_dd: usize,
}
fn collect<S: InterruptibleSolver>(s: &S, status: Option<ResolutionStatus>) -> Res {
    let polls = TRUES.load(Ordering::Relaxed);
    let (value, sol) = (s.best_value(), s.best_solution());
    vp::check(s.best_value_so_far() == value, 23);
    vp::check(s.best_solution_so_far() == sol, 24);
    Res { polls, value, sol, lb: s.best_lower_bound(), ub: s.best_upper_bound(), status, explored: 0, explored_dd: 0 }
}
fn run<S: InterruptibleSolver>(s: &mut S) -> Res {
    if p(P_API) == 0 {
        s.maximize();
        collect(s, None)
    } else if p(P_API) == 1 {
        let st = s.maximize_with_interrupt(|| false);
        collect(s, Some(st))
    } else {
        let st = s.maximize_with_interrupt(interrupt);
        collect(s, Some(st))
    }
}
static POLLS: AtomicUsize = AtomicUsize::new(0);
static TRUES: AtomicUsize = AtomicUsize::new(0);
/// the cutoff decides freely at each of its first P_POLLS polls
fn interrupt() -> bool {
    let i = POLLS.fetch_add(1, Ordering::Relaxed);
    let stop = if i < p(P_POLLS) { vp::sym(4000 + i as u32, 0, 1) == 1 } else { p(P_LATER) == 1 };
    if stop {
        TRUES.fetch_add(1, Ordering::Relaxed);
    }
    stop
}

/// A resolution stopped by the cutoff at any poll: what it reports encloses the optimum.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_intr() {
    let m = model();
    let r = solve(&m);
    let opt = m.bst[0][0].map(|b| m.init + b);
    let st = r.status.unwrap();
    vp::check(r.value.is_some() == r.sol.is_some(), 10);
    if let (Some(v), Some(sol)) = (r.value, &r.sol) {
        vp::check(sol.len() == m.sk.n, 20);
        match m.walk(sol) {
            None => vp::check(false, 21),
            Some((_, x)) => vp::check(x == v, 22),
        }
        vp::check(r.lb == v, 30);
    } else {
        vp::check(r.lb == isize::MIN, 33);
    }
    // the bounds enclose the optimum and each other
    vp::check(opt.map_or(true, |o| o <= r.ub), 34);
    vp::check(r.lb <= r.ub, 35);
    // the status tells whether the cutoff stopped the search
    vp::check((st == ResolutionStatus::Interrupted) == (r.polls > 0), 36);
    if st == ResolutionStatus::Proved {
        vp::reach(3);
        vp::check(r.ub == r.lb, 31);
        vp::check(r.value.is_some() == opt.is_some(), 37);
        vp::check(opt.map_or(true, |o| o <= r.lb), 38);
    } else {
        vp::reach(4);
        if r.value.is_some() {
            vp::reach(5);
        }
    }
    counters(&m, &r);
    vp::out(2, r.lb);
    vp::out(3, r.ub);
    vp::out(4, r.polls as isize);
}
/// the work counters tell how many states were expanded and how many subproblems were processed
fn counters(m: &M, r: &Res) {
    vp::check(r.explored_dd == m.expansions(), 180);
    let compiled = WIDTH_CALLS.load(Ordering::Relaxed);
    if p(P_THREADS) == 1 {
        vp::check(r.explored == compiled || r.explored == WIDTH_STATES.load(Ordering::Relaxed), 181);
    } else {
        vp::check(r.explored >= compiled, 182);
    }
    vp::out(5, r.explored as isize);
    vp::out(6, r.explored_dd as isize);
}
fn solve(m: &M) -> Res {
    let rx = Rx(m);
    let w = Wd(p(P_WIDTH));
    let t = p(P_THREADS);
    let t2 = p(P_NBT);
    macro_rules! go {
        ($s:expr) => {{
            let s = $s;
            let mut s = if t2 > 0 { s.with_nb_threads(t2) } else { s };
            let mut r = run(&mut s);
            r.explored = s.get_explored();
            r.explored_dd = s.get_explored_dd();
            r
        }};
    }
    match p(P_SOLVER) {
        0 => {
            let mut f = SimpleFrontier::new(&Rk);
            go!(ParallelSolver::custom(m, &rx, &Rk, &w, cutset(), &mut f, t))
        }
        1 => {
            let mut f = NoDupFrontier::new(&Rk);
            go!(ParallelSolver::custom(m, &rx, &Rk, &w, cutset(), &mut f, t))
        }
        _ => go!(BarrierParallelSolver::custom(m, &rx, &Rk, &w, cutset(), t)),
    }
}

/// One solver run several times (param 26, base 4: 1 stopped at any poll, 2 maximize, 3 never stopped):
/// every run's report is right, whatever the earlier ones left behind.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_again() {
    let m = model();
    let rx = Rx(&m);
    let w = Wd(p(P_WIDTH));
    let t = p(P_THREADS);
    match p(P_SOLVER) {
        0 => {
            let mut f = SimpleFrontier::new(&Rk);
            again(&m, &mut ParallelSolver::custom(&m, &rx, &Rk, &w, cutset(), &mut f, t))
        }
        1 => {
            let mut f = NoDupFrontier::new(&Rk);
            again(&m, &mut ParallelSolver::custom(&m, &rx, &Rk, &w, cutset(), &mut f, t))
        }
        _ => again(&m, &mut BarrierParallelSolver::custom(&m, &rx, &Rk, &w, cutset(), t)),
    }
}
fn again<S: InterruptibleSolver>(m: &M, s: &mut S) {
    let opt = m.bst[0][0].map(|b| m.init + b);
    let mut before = isize::MIN;
    let mut k = p(29);
    while k > 0 {
        let trues = TRUES.load(Ordering::Relaxed);
        let st = match k % 4 {
            1 => Some(s.maximize_with_interrupt(interrupt)),
            2 => {
                s.maximize();
                None
            }
            _ => Some(s.maximize_with_interrupt(|| false)),
        };
        k /= 4;
        let stopped = TRUES.load(Ordering::Relaxed) > trues;
        let r = collect(s, st);
        vp::check(st.map_or(true, |x| (x == ResolutionStatus::Interrupted) == stopped), 210);
        vp::check(r.value.is_some() == r.sol.is_some(), 211);
        vp::check(r.value.unwrap_or(isize::MIN) == r.lb, 212);
        if let (Some(v), Some(sol)) = (r.value, &r.sol) {
            vp::check(sol.len() == m.sk.n && m.walk(sol).map_or(false, |(_, x)| x == v), 213);
        }
        vp::check(opt.map_or(true, |o| o <= r.ub), 214);
        vp::check(r.lb <= r.ub, 215);
        vp::check(before <= r.lb, 216);
        if !stopped {
            vp::check(r.value.is_some() == opt.is_some(), 217);
            vp::check(opt.map_or(true, |o| o == r.lb), 218);
            vp::check(r.ub == r.lb, 219);
            vp::reach(if k > 0 { 210 } else { 211 });
        } else {
            vp::reach(212);
        }
        before = r.lb;
        vp::out(7, r.lb);
        vp::out(8, r.ub);
    }
}

/// A whole resolution with any 64-bit costs, values and rough bounds: no panic, it ends, and what
/// it reports is consistent (sums that overflow have no reference value).
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_any() {
    let m = model();
    let r = solve(&m);
    vp::check(r.value.is_some() == r.sol.is_some(), 10);
    if let (Some(v), Some(sol)) = (r.value, &r.sol) {
        vp::check(sol.len() == m.sk.n, 20);
        vp::check(m.walk(sol).is_some(), 21);
        vp::check(r.lb == v, 30);
        vp::reach(2);
        vp::out(1, v);
    }
    vp::check(r.ub == r.lb, 31);
    vp::reach(1);
}

/// A whole resolution: optimality, feasibility and consistency of what is reported.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_solve() {
    let m = model();
    let r = solve(&m);
    let opt = m.bst[0][0].map(|b| m.init + b);
    vp::check(r.value.is_some() == r.sol.is_some(), 10);
    if opt.is_none() {
        vp::check(r.value.is_none(), 11);
        vp::reach(1);
    } else {
        vp::check(r.value.is_some(), 12);
    }
    if let (Some(v), Some(sol)) = (r.value, &r.sol) {
        vp::reach(2);
        vp::check(opt.map_or(true, |o| o == v), 1);
        vp::check(sol.len() == m.sk.n, 20);
        match m.walk(sol) {
            None => vp::check(false, 21),
            Some((_, x)) => vp::check(x == v, 22),
        }
        vp::check(r.lb == v, 30);
        vp::out(1, v);
    }
    vp::check(r.ub == r.lb, 31);
    if let Some(s) = r.status {
        vp::check(s == ResolutionStatus::Proved, 32);
    }
    counters(&m, &r);
    vp::out(2, r.lb);
    vp::out(3, r.ub);
}

/// The shared experiment driver: it returns and prints what the search established.
/// The clock may jump past the time limit between any of its first param 60 readings.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_driver() {
    let m = model();
    let rx = Rx(&m);
    let w = Wd(p(P_WIDTH));
    let (ty, name) = if p(P_SOLVER) == 2 { (SolverType::Barrier, "barrier") } else { (SolverType::Parallel, "parallel") };
    resolution_header();
    // as long as the clock's jumps: only just exceeded by one
    let limit = 1000.0;
    LIMIT_MS.store(limit as usize * 1000, Ordering::Relaxed);
    let ub = solve_timeout("instance", std::time::Duration::from_secs(limit as u64), &w, &m, &rx, &Rk, Some(p(P_THREADS)), ty, cutset());
    let opt = m.bst[0][0].map(|b| m.init + b);
    let text = vp::stdout();
    let text = std::str::from_utf8(&text).unwrap();
    let mut lines = text.lines();
    let head: Vec<&str> = lines.next().unwrap().split('|').map(|x| x.trim()).collect();
    let row: Vec<&str> = lines.next().unwrap().split('|').map(|x| x.trim()).collect();
    vp::check(lines.next().is_none() && text.ends_with('\n'), 190);
    vp::check(head.len() == row.len(), 191);
    let get = |k: &str| row[head.iter().position(|h| *h == k).unwrap()];
    vp::check(get("NAME") == "instance" && get("SOLVER") == name, 192);
    let proved = get("STATUS") == "Proved";
    vp::check(proved || get("STATUS") == "Timeout", 193);
    let value = get("BEST-VAL").parse::<isize>().ok();
    vp::check(value.is_some() || get("BEST-VAL") == "not found", 194);
    let lb = get("LB").parse::<isize>().unwrap();
    vp::check(get("UB").parse::<isize>() == Ok(ub), 195);
    vp::check(value.map_or(lb == isize::MIN, |v| lb == v), 196);
    vp::check(opt.map_or(value.is_none(), |o| vp::and(lb <= o, o <= ub)), 197);
    if proved {
        vp::check(lb == ub && value.is_some() == opt.is_some(), 198);
        vp::reach(190);
    } else {
        vp::check(get("DURATION").parse::<f32>().unwrap() >= limit, 199);
        vp::reach(191);
    }
    // the limit may pass while a subproblem begins, but then no other one does
    vp::check(TOO_LATE.load(Ordering::Relaxed) <= p(P_THREADS), 204);
    let gap = get("GAP").parse::<f32>().unwrap();
    vp::check(gap >= 0.0, 200);
    vp::check((gap == 0.0) == (lb == ub), 201);
    vp::check(get("NODES DD").parse::<usize>() == Ok(m.expansions()), 202);
    vp::check(get("NODES B&B").parse::<usize>().unwrap() >= WIDTH_CALLS.load(Ordering::Relaxed), 203);
    vp::out(190, lb);
    vp::out(191, ub);
    vp::out(192, proved as isize);
}
