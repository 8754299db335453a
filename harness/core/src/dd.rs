//! Decision-diagram level entries: one compilation, rooted in any subproblem, with any lower
//! bound, on a fresh or a reused diagram.
use crate::model::*;
use crate::vp;
use crate::{cutset, model, p, P_WIDTH};
use engineering::*;
use parking_lot::RwLock;
use rustc_hash::FxHashMap;
use std::sync::Arc;

pub const P_MDD: u32 = 0; // 0 All, 1 Barrier
pub const P_TYPE: u32 = 15; // 0 exact, 1 restricted, 2 relaxed
pub const P_DEPTH: u32 = 16; // depth of the root of the compilation
pub const P_WHICH: u32 = 17; // which feasible prefix leads to it
pub const P_LB: u32 = 18; // 0 none (MIN), 1 symbolic
pub const P_PRE: u32 = 19; // history of the diagram: list of types (base 4), each rooted in the initial state
pub const P_BAR: u32 = 20; // number of thresholds present in the barrier beforehand
pub const P_UB: u32 = 21; // 0: MAX, 1: tight symbolic upper bound on the residual

type Bars = Arc<Vec<RwLock<FxHashMap<Arc<St>, BarrierInfo>>>>;

fn ctype(x: usize) -> CompilationType {
    match x {
        0 => CompilationType::Exact,
        1 => CompilationType::Restricted,
        _ => CompilationType::Relaxed,
    }
}

/// the prefixes of `k` decisions: base state reached, decisions, cost
fn prefixes(m: &M, k: usize) -> Vec<(u8, Vec<Decision>, isize)> {
    let mut cur = vec![(0u8, vec![], 0isize)];
    for j in 0..k {
        let mut nx = vec![];
        for (s, d, c) in &cur {
            for v in 0..m.sk.d {
                if let Some(t) = m.sk.nxt[j][*s as usize][v] {
                    let mut dd = d.clone();
                    dd.push(Decision { var: Variable(m.sk.order[j]), value: v as isize });
                    nx.push((t, dd, *c + m.c[j][*s as usize][v]));
                }
            }
        }
        cur = nx;
    }
    cur
}

struct Node {
    k: usize,
    s: u8,
    value: isize,
    ub: isize,
}

fn go<D: DecisionDiagram<State = St>>(m: &M, dd: &mut D, bars: Option<&Bars>, explored: fn(&D) -> usize) {
    let rx = Rx(m);
    let width = p(P_WIDTH);
    let lb = if p(P_LB) == 0 { isize::MIN } else { vp::sym(5000, -10 * lim(), 10 * lim()) };
    // earlier compilations on the same diagram object
    let mut h = p(P_PRE);
    while h > 0 {
        let input = CompilationInput {
            comp_type: ctype(h % 4),
            max_width: width,
            problem: m,
            relaxation: &rx,
            ranking: &Rk,
            residual: SubProblem { state: Arc::new(m.initial_state()), value: m.initial_value(), path: vec![], ub: isize::MAX },
            best_lb: isize::MIN,
        };
        dd.compile(&input);
        h /= 4;
    }
    let k = p(P_DEPTH);
    let pre = prefixes(m, k);
    if pre.is_empty() {
        return;
    }
    let (s, path, cost) = pre[p(P_WHICH) % pre.len()].clone();
    let value = m.init + cost;
    // the best completion of the root
    let opt = m.bst[k][s as usize].map(|b| value + b);
    let ub = if p(P_UB) == 0 {
        isize::MAX
    } else {
        let u = vp::sym(5001, -20 * lim(), 20 * lim());
        if let Some(o) = opt {
            vp::assume(o <= u);
        }
        u
    };
    // thresholds left behind by other subproblems: they only forbid what cannot improve on lb
    if let Some(b) = bars {
        for l in b.iter() {
            l.write().clear();
        }
        let mut n = 0;
        for j in k + 1..m.sk.n {
            for t in 0..m.sk.sizes[j] {
                if n < p(P_BAR) && (p(P_WHICH) + t) % 2 == 0 {
                    let th = vp::sym(6000 + (j * 8 + t) as u32, -20 * lim(), 20 * lim());
                    if let Some(b) = m.bst[j][t] {
                        vp::assume(th + b <= lb);
                    }
                    b[j].write().insert(Arc::new(St { depth: j as u8, set: 1 << t }), BarrierInfo { theta: th, explored: (j + t) % 2 == 0 });
                    n += 1;
                }
            }
        }
    }
    m.reset_expansions();
    let ct = ctype(p(P_TYPE));
    let input = CompilationInput {
        comp_type: ct,
        max_width: width,
        problem: m,
        relaxation: &rx,
        ranking: &Rk,
        residual: SubProblem { state: Arc::new(St { depth: k as u8, set: 1 << s }), value, path: path.clone(), ub },
        best_lb: lb,
    };
    dd.compile(&input);

    let best = dd.best_value();
    let sol = dd.best_solution();
    let exact = dd.is_exact();
    vp::check(best.is_some() == sol.is_some(), 40);
    if ct == CompilationType::Exact {
        vp::check(exact, 41);
    }
    // relaxed diagrams never underestimate; exact ones are right
    if ct == CompilationType::Relaxed {
        vp::check(opt.map_or(true, |o| no_better(o, lb, best)), 90);
        vp::reach(90);
    }
    if exact {
        vp::reach(42);
        vp::check(opt.map_or(true, |o| no_better(o, lb, best)), 42);
    } else {
        vp::reach(43);
    }
    if exact || ct != CompilationType::Relaxed {
        if let (Some(b), Some(sol)) = (best, &sol) {
            vp::check(sol.len() == m.sk.n, 43);
            match m.walk(sol) {
                None => vp::check(false, 44),
                Some((_, x)) => vp::check(x == b, 45),
            }
            // the path extends the residual's own path
            vp::check(path.iter().all(|d| sol.contains(d)), 46);
        }
    }
    vp::out(40, exact as isize);
    vp::out(41, best.unwrap_or(isize::MIN));
    // widths
    for j in 0..=m.sk.n {
        let e = m.expanded[j].load(std::sync::atomic::Ordering::Relaxed);
        vp::check(j >= k || e == 0, 70);
        if ct == CompilationType::Restricted {
            vp::check(e <= width, 71);
        }
        if ct == CompilationType::Relaxed && j > k + 1 {
            vp::check(e <= width, 72);
            if e == width {
                vp::reach(72);
            }
        }
    }
    vp::check(explored(dd) == m.expansions(), 80);
    let mut nodes: Vec<Node> = vec![];
    if ct == CompilationType::Relaxed && !exact {
        vp::reach(50);
        let mut all = vec![];
        dd.drain_cutset(|n| all.push(n));
        for n in &all {
            let depth = n.path.len();
            vp::check(depth > k, 50);
            vp::check(depth == n.state.depth as usize, 51);
            vp::check(n.state.set.count_ones() == 1, 52);
            vp::check(path.iter().all(|d| n.path.contains(d)), 53);
            match m.walk(&n.path) {
                None => vp::check(false, 54),
                Some((b, v)) => {
                    vp::check(n.state.set == 1 << b, 55);
                    vp::check(n.value == v, 56);
                    nodes.push(Node { k: depth, s: b, value: v, ub: n.ub });
                }
            }
        }
        // no two cutset nodes are the same subproblem
        for a in 0..all.len() {
            for b in 0..a {
                vp::check(all[a].state != all[b].state, 57);
            }
        }
        // the upper bound attached to each node covers its completions that would improve on lb
        for n in &nodes {
            if let Some(b) = m.bst[n.k][n.s as usize] {
                vp::check(vp::or(n.value + b <= lb, n.value + b <= n.ub), 58);
            }
        }
        // and every improving completion of the root is reached (at least as well) through the cutset
        if vp::enabled(59) {
            if let Some(o) = opt {
                vp::check(covered(m, &nodes, o, o <= lb), 59);
            }
        }
        vp::out(50, nodes.len() as isize);
    }
    // thresholds: whoever reaches the state with at most theta cannot do better than what is kept
    if let Some(b) = bars {
        if ct == CompilationType::Relaxed && vp::enabled(60) {
            let mut cnt = 0;
            for (j, l) in b.iter().enumerate() {
                for (st, info) in l.read().iter() {
                    cnt += 1;
                    vp::check(st.depth as usize == j && j >= k, 60);
                    vp::check(st.set.count_ones() == 1, 61);
                    if st.set.count_ones() != 1 || info.theta == isize::MIN {
                        continue;
                    }
                    let t = st.set.trailing_zeros() as u8;
                    if let Some(b) = m.bst[j][t as usize] {
                        let v = info.theta.saturating_add(b);
                        vp::check(if exact { no_better(v, lb, best) } else { covered(m, &nodes, v, v <= lb) }, 62);
                    }
                    // a state that still waits in the cutset must not be marked as explored
                    if !exact && info.explored {
                        for n in &nodes {
                            if n.k == j && n.s == t {
                                vp::check(n.value > info.theta || n.ub <= lb, 63);
                            }
                        }
                    }
                }
            }
            if cnt > 0 {
                vp::reach(60);
            }
            vp::out(60, cnt);
        }
    }
}

/// does v improve neither on the lower bound nor on the best value?
fn no_better(v: isize, lb: isize, best: Option<isize>) -> bool {
    match best {
        Some(b) => vp::or(v <= lb, v <= b),
        None => v <= lb,
    }
}

/// is some completion through a cutset node worth at least v (and allowed by the node's bound)?
fn covered(m: &M, nodes: &[Node], v: isize, base: bool) -> bool {
    let mut ok = base;
    for n in nodes {
        if let Some(b) = m.bst[n.k][n.s as usize] {
            ok = vp::or(ok, v <= n.value + b);
        }
    }
    ok
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_dd() {
    let m = model();
    if p(P_MDD) == 0 {
        let mut dd = All::<St>::new(cutset());
        go(&m, &mut dd, None, |d| d.get_explored());
    } else {
        let bars: Bars = Arc::new((0..=m.sk.n).map(|_| RwLock::new(Default::default())).collect());
        let mut dd = Barrier::<St>::new(bars.clone(), cutset());
        go(&m, &mut dd, Some(&bars), |d| d.get_explored());
    }
}
