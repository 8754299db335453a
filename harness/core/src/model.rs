//! A family of small problems: the graph of base states is concrete (chosen by the skeleton
//! parameter), every transition cost, the initial value, the rough upper bounds and the
//! relaxation slacks are symbolic. A decision-diagram state is a set of base states of one
//! layer (a singleton unless it was merged).
use crate::vp;
use engineering::*;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed as Rlx};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct St {
    pub depth: u8,
    pub set: u8,
}

/// the concrete part: layers, number of base states per layer, transitions
#[derive(Clone)]
pub struct Skel {
    pub n: usize,
    pub d: usize,
    pub sizes: Vec<usize>,
    pub nxt: Vec<Vec<Vec<Option<u8>>>>,
    /// variable assigned at each depth
    pub order: Vec<usize>,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, m: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % m
    }
}

impl Skel {
    /// skeleton number `id` with n variables of d values, at most `w` base states per layer,
    /// and a terminal layer with `t` base states
    /// hand-made graphs for corner cases
    pub fn special(id: isize) -> Skel {
        let t = |x: &[isize]| -> Vec<Option<u8>> { x.iter().map(|v| if *v < 0 { None } else { Some(*v as u8) }).collect() };
        let nxt: Vec<Vec<Vec<Option<u8>>>> = match id {
            // two terminal states; one is reached only through a branch that never meets a merged node
            -1 => vec![
                vec![t(&[0, 1, 2])],
                vec![t(&[0, 1, -1]), t(&[1, 0, -1]), t(&[2, -1, -1])],
                vec![t(&[0, -1, -1]), t(&[0, -1, -1]), t(&[1, -1, -1])],
            ],
            // no complete path at all: every branch dies in the last layer
            -2 => vec![vec![t(&[0, 1])], vec![t(&[0, 1]), t(&[1, 2])], vec![t(&[-1, -1]), t(&[-1, -1]), t(&[-1, -1])]],
            // no complete path: the layer after the first one is empty
            -3 => vec![vec![t(&[0, 1])], vec![t(&[-1, -1]), t(&[-1, -1])], vec![t(&[0, 0])]],
            // a single feasible path
            -4 => vec![vec![t(&[0, 1])], vec![t(&[-1, 0]), t(&[1, 2])], vec![t(&[-1, -1]), t(&[-1, 0]), t(&[-1, -1])]],
            // no decision feasible in the root
            -5 => vec![vec![t(&[-1, -1])], vec![t(&[0, 0])], vec![t(&[0, 0])]],
            // four layers, the merged set can coincide with a kept node ({0,1,2} cannot, {1} can)
            -6 => vec![
                vec![t(&[0, 1])],
                vec![t(&[0, 1]), t(&[1, 2])],
                vec![t(&[0, 1]), t(&[1, 2]), t(&[2, 0])],
                vec![t(&[0, 1]), t(&[1, 0]), t(&[0, 0])],
            ],
            _ => vec![vec![t(&[0, 0])]],
        };
        let n = nxt.len();
        let d = nxt[0][0].len();
        let mut sizes: Vec<usize> = nxt.iter().map(|l| l.len()).collect();
        let last = nxt[n - 1].iter().flatten().filter_map(|x| *x).max().unwrap_or(0);
        sizes.push(last as usize + 1);
        Skel { n, d, sizes, nxt, order: (0..n).collect() }
    }
    pub fn make(id: isize, n: usize, d: usize, w: usize, t: usize, infeas: u64) -> Skel {
        if id < 0 {
            return Skel::special(id);
        }
        let mut r = Rng(id as u64 * 7919 + 17);
        r.next(2);
        r.next(2);
        let mut sizes = vec![1usize];
        for k in 1..=n {
            let m = if k == n { t } else { (sizes[k - 1] * d).min(w) };
            sizes.push(m);
        }
        let mut nxt = vec![];
        for k in 0..n {
            let mut l = vec![];
            let mut cover = 0usize;
            for _ in 0..sizes[k] {
                let mut row = vec![];
                for _ in 0..d {
                    // id 0: regular shape, everything feasible
                    let tgt = if cover < sizes[k + 1] {
                        cover += 1;
                        cover - 1
                    } else {
                        r.next(sizes[k + 1] as u64) as usize
                    };
                    let dead = infeas > 0 && r.next(100) < infeas;
                    row.push(if dead { None } else { Some(tgt as u8) });
                }
                l.push(row);
            }
            nxt.push(l);
        }
        let order = if id % 2 == 0 { (0..n).collect() } else { (0..n).rev().collect() };
        Skel { n, d, sizes, nxt, order }
    }
}

pub struct M {
    pub sk: Skel,
    pub c: Vec<Vec<Vec<isize>>>,
    pub init: isize,
    pub rub_mode: isize,
    pub r: Vec<Vec<isize>>,
    pub slack: Vec<isize>,
    /// what a merged state of each layer owes per state merged beyond the first: part of the value of
    /// its completions is paid on the way in, so that redirected arcs must change their cost
    pub due: Vec<isize>,
    /// value of the best completion from each base state, None if there is none
    pub bst: Vec<Vec<Option<isize>>>,
    /// number of states expanded (calls of for_each_in_domain) at each depth
    pub expanded: Vec<AtomicUsize>,
    /// does next_variable yield a variable for an empty layer?
    pub var_on_empty: bool,
}

/// a complete path of base decisions from base state `s` of layer `k`
#[derive(Clone)]
pub struct Path {
    pub vals: Vec<u8>,
    /// base states visited, starting with `s`
    pub states: Vec<u8>,
    /// sum of the costs
    pub cost: isize,
}

/// bound of the magnitude of the costs
pub fn lim() -> isize {
    match vp::param(26) {
        0 => 1000,
        e => 1 << e,
    }
}

impl M {
    pub fn expansions(&self) -> usize {
        self.expanded.iter().map(|x| x.load(Rlx)).sum()
    }
    pub fn reset_expansions(&self) {
        self.expanded.iter().for_each(|x| x.store(0, Rlx));
    }
    /// symmask selects which cost variables are symbolic (bit = running index); others take a
    /// fixed concrete value
    pub fn make(sk: Skel, rub_mode: isize, slack_mode: isize, init_mode: isize, concrete: u64) -> M {
        let b = lim();
        // extreme: any value at all, no reference is computed
        let extreme = rub_mode == 3;
        let (lo, hi) = if extreme { (isize::MIN, isize::MAX) } else { (-b, b) };
        let mut r = Rng(99 + vp::param(28) as u64 * 31);
        let off = vp::param(27) as u64;
        let mut c = vec![];
        let mut idx = 0u64;
        for k in 0..sk.n {
            let mut l = vec![];
            for s in 0..sk.sizes[k] {
                let mut row = vec![];
                for v in 0..sk.d {
                    let fix = r.next(9) as isize - 4;
                    let x = if sk.nxt[k][s][v].is_none() {
                        0
                    } else if concrete > 0 && idx % concrete != off % concrete {
                        fix
                    } else {
                        vp::sym(1000 + ((k * 8 + s) * 4 + v) as u32, lo, hi)
                    };
                    if sk.nxt[k][s][v].is_some() {
                        idx += 1;
                    }
                    row.push(x);
                }
                l.push(row);
            }
            c.push(l);
        }
        let init = match init_mode {
            0 => 0,
            1 => vp::sym(1, lo, hi),
            x => x,
        };
        let slack = (0..=sk.n).map(|k| if slack_mode == 1 { vp::sym(3000 + k as u32, 0, b) } else { 0 }).collect();
        let expanded = (0..=sk.n).map(|_| AtomicUsize::new(0)).collect();
        let due = (0..=sk.n)
            .map(|k| match vp::param(30) {
                _ if k == sk.n || extreme => 0,
                1 => 1 + k as isize * 2,
                2 => [3, -2, 5, -4][k % 4],
                3 => vp::sym(3500 + k as u32, -b, b),
                _ => 0,
            })
            .collect();
        let mut m = M { sk, c, init, rub_mode, r: vec![], slack, due, bst: vec![], expanded, var_on_empty: vp::param(22) != 0 };
        let mut bst = vec![vec![Some(0); m.sk.sizes[m.sk.n]]];
        if !extreme {
            for k in (0..m.sk.n).rev() {
                let row = (0..m.sk.sizes[k])
                    .map(|s| {
                        let mut r: Option<isize> = None;
                        for v in 0..m.sk.d {
                            if let Some(b) = m.sk.nxt[k][s][v].and_then(|t| bst[0][t as usize]) {
                                let x = m.c[k][s][v] + b;
                                r = Some(r.map_or(x, |y| vp::max(x, y)));
                            }
                        }
                        r
                    })
                    .collect();
                bst.insert(0, row);
            }
        }
        m.bst = bst;
        for k in 0..=m.sk.n {
            let mut row = vec![];
            for s in 0..m.sk.sizes[k] {
                row.push(match rub_mode {
                    // a free bound, at least the best completion
                    1 => {
                        let x = vp::sym(2000 + (k * 8 + s) as u32, -20 * b, 20 * b);
                        for p in &m.paths(k, s as u8) {
                            vp::assume(p.cost <= x);
                        }
                        x
                    }
                    2 => m.bst[k][s].unwrap_or(-20 * b),
                    4 => m.bst[k][s].unwrap_or(-20 * b) + r.next(3) as isize,
                    3 => vp::sym(2000 + (k * 8 + s) as u32, lo, hi),
                    _ => isize::MAX,
                });
            }
            m.r.push(row);
        }
        m
    }
    /// all complete base paths from base state `s` of layer `k`
    pub fn paths(&self, k: usize, s: u8) -> Vec<Path> {
        if k == self.sk.n {
            return vec![Path { vals: vec![], states: vec![s], cost: 0 }];
        }
        let mut out = vec![];
        for v in 0..self.sk.d {
            if let Some(t) = self.sk.nxt[k][s as usize][v] {
                for p in self.paths(k + 1, t) {
                    let mut vals = vec![v as u8];
                    vals.extend(p.vals.iter());
                    let mut states = vec![s];
                    states.extend(p.states.iter());
                    out.push(Path { vals, states, cost: self.c[k][s as usize][v] + p.cost });
                }
            }
        }
        out
    }
    /// Applies a set of decisions from the root: it must assign each of the first `dec.len()`
    /// variables of the order exactly once (the list itself may be in any order). Yields the base
    /// state reached and the accumulated value, None if the decisions are not a feasible path.
    pub fn walk(&self, dec: &[Decision]) -> Option<(u8, isize)> {
        let mut by: Vec<Option<isize>> = vec![None; self.sk.n];
        for d in dec {
            let k = self.sk.order.iter().position(|v| *v == d.var.id())?;
            if by[k].is_some() {
                return None;
            }
            by[k] = Some(d.value);
        }
        let mut s = 0u8;
        let mut v = self.init;
        for k in 0..dec.len() {
            let x = by[k]?;
            if x < 0 || x as usize >= self.sk.d {
                return None;
            }
            let t = self.sk.nxt[k][s as usize][x as usize]?;
            v = v.wrapping_add(self.c[k][s as usize][x as usize]);
            s = t;
        }
        Some((s, v))
    }
}

fn members(set: u8) -> impl Iterator<Item = usize> {
    (0..8usize).filter(move |i| set >> i & 1 == 1)
}

impl Problem for M {
    type State = St;
    fn nb_variables(&self) -> usize {
        self.sk.n
    }
    fn initial_state(&self) -> St {
        St { depth: 0, set: 1 }
    }
    fn initial_value(&self) -> isize {
        self.init
    }
    fn next_variable(&self, next_layer: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        let d = match next_layer.next() {
            Some(s) => s.depth as usize,
            // what a problem answers for an empty layer is its own business
            None if self.var_on_empty => return Some(Variable(self.sk.order[self.sk.n - 1])),
            None => return None,
        };
        for s in next_layer {
            vp::check(s.depth as usize == d, 901);
        }
        if d < self.sk.n {
            Some(Variable(self.sk.order[d]))
        } else {
            None
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &St, mut f: F)
    where
        F: FnMut(Decision),
    {
        let k = s.depth as usize;
        vp::check(k < self.sk.n && self.sk.order[k] == var.id(), 902);
        self.expanded[k].fetch_add(1, Rlx);
        layer(k);
        for v in 0..self.sk.d {
            if members(s.set).any(|b| self.sk.nxt[k][b][v].is_some()) {
                f(Decision { var, value: v as isize });
            }
        }
    }
    fn transition(&self, s: &St, d: Decision) -> St {
        let k = s.depth as usize;
        vp::check(k < self.sk.n && self.sk.order[k] == d.var.id() && d.value >= 0 && (d.value as usize) < self.sk.d, 903);
        let mut set = 0;
        for b in members(s.set) {
            if let Some(t) = self.sk.nxt[k][b][d.value as usize] {
                set |= 1 << t;
            }
        }
        vp::check(set != 0, 904);
        St { depth: s.depth + 1, set }
    }
    fn transition_cost(&self, s: &St, d: Decision) -> isize {
        let k = s.depth as usize;
        let v = d.value as usize;
        let mut c: Option<isize> = None;
        for b in members(s.set) {
            if self.sk.nxt[k][b][v].is_some() {
                let x = self.c[k][b][v];
                c = Some(c.map_or(x, |y| vp::max(x, y)));
            }
        }
        let c = c.unwrap_or(0);
        if s.set.count_ones() > 1 {
            c - self.debt(s) + self.debt(&self.transition(s, d))
        } else {
            c
        }
    }
    fn estimate(&self, s: &St) -> isize {
        if self.rub_mode == 0 {
            return isize::MAX;
        }
        let mut r: Option<isize> = None;
        for b in members(s.set) {
            let x = self.r[s.depth as usize][b];
            r = Some(r.map_or(x, |y| vp::max(x, y)));
        }
        match r.unwrap() {
            isize::MAX => isize::MAX,
            r if s.set.count_ones() > 1 => r - self.debt(s),
            r => r,
        }
    }
}
impl M {
    fn debt(&self, s: &St) -> isize {
        let d = self.due[s.depth as usize];
        (1..s.set.count_ones()).fold(0, |a, _| a + d)
    }
}

pub struct Rx<'a>(pub &'a M);
impl Relaxation for Rx<'_> {
    type State = St;
    fn merge(&self, states: &mut dyn Iterator<Item = &St>) -> St {
        let mut it = states;
        let f = it.next();
        vp::check(f.is_some(), 905);
        let mut r = *f.unwrap();
        for s in it {
            vp::check(s.depth == r.depth, 906);
            r.set |= s.set;
        }
        r
    }
    fn relax(&self, src: &St, dest: &St, new: &St, d: Decision, cost: isize) -> isize {
        // the arguments must describe an arc of the diagram and the merge it takes part in
        vp::check(src.depth + 1 == dest.depth && dest.depth == new.depth, 907);
        vp::check(self.0.transition(src, d) == *dest, 908);
        vp::check(self.0.transition_cost(src, d) == cost, 909);
        vp::check(dest.set & !new.set == 0, 910);
        if new == dest {
            return cost + self.0.slack[dest.depth as usize];
        }
        cost + self.0.slack[dest.depth as usize] + self.0.debt(new) - self.0.debt(dest)
    }
}

/// ranks by the set of base states: a concrete total order
pub struct Rk;
impl StateRanking for Rk {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering {
        a.set.cmp(&b.set)
    }
}

/// The width may depend on the state (parameter 32): one more where the depth is even.
pub struct Wd(pub usize);
/// number of subproblems for which a width was asked, and the same counting a state only once when it
/// is asked for several times in a row
pub static WIDTH_CALLS: AtomicUsize = AtomicUsize::new(0);
pub static WIDTH_STATES: AtomicUsize = AtomicUsize::new(0);
static LAST: AtomicUsize = AtomicUsize::new(0);
/// number of subproblems begun later than this after the first one, if not 0
pub static LIMIT_MS: AtomicUsize = AtomicUsize::new(0);
pub static TOO_LATE: AtomicUsize = AtomicUsize::new(0);
static BEGIN: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
/// the subproblem at hand (one thread): width, depth of its root, size of the layer being expanded
static WIDTH: AtomicUsize = AtomicUsize::new(0);
static ROOT: AtomicUsize = AtomicUsize::new(0);
static LAYER: AtomicUsize = AtomicUsize::new(0);
static SIZE: AtomicUsize = AtomicUsize::new(0);
impl WidthHeuristic<St> for Wd {
    fn max_width(&self, s: &St) -> usize {
        let w = self.0 + if s.depth % 2 == 0 { vp::param(32) as usize } else { 0 };
        WIDTH_CALLS.fetch_add(1, Rlx);
        if LIMIT_MS.load(Rlx) > 0 {
            let t = BEGIN.get_or_init(std::time::Instant::now).elapsed().as_millis();
            if t > LIMIT_MS.load(Rlx) as u128 {
                TOO_LATE.fetch_add(1, Rlx);
            }
        }
        let id = 1 + s.depth as usize * 256 + s.set as usize;
        if LAST.swap(id, Rlx) != id {
            WIDTH_STATES.fetch_add(1, Rlx);
        }
        WIDTH.store(w, Rlx);
        ROOT.store(s.depth as usize, Rlx);
        w
    }
}
/// a state of layer `k` is expanded
fn layer(k: usize) {
    if vp::param(2) != 1 || WIDTH.load(Rlx) == 0 {
        return;
    }
    let n = if LAYER.swap(k, Rlx) == k { SIZE.load(Rlx) + 1 } else { 1 };
    SIZE.store(n, Rlx);
    // the layer below the root of a relaxed diagram is not squashed
    vp::check(k < ROOT.load(Rlx) + 2 || n <= WIDTH.load(Rlx), 76);
}
