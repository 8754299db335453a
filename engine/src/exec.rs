//! Symbolic execution of the module: states, forking, scheduling, instructions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Z3, R};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(u128),
    A(Rc<[Val]>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Choice {
    B(bool, bool), // taken, implied
    V(i128),
    S(u32),
}

pub struct Cons<T> {
    v: T,
    prev: List<T>,
}
pub type List<T> = Option<Rc<Cons<T>>>;
pub fn to_vec<T: Clone>(l: &List<T>) -> Vec<T> {
    let mut v = vec![];
    let mut c = l.as_ref();
    while let Some(n) = c {
        v.push(n.v.clone());
        c = n.prev.as_ref();
    }
    v.reverse();
    v
}
impl<T> Drop for Cons<T> {
    fn drop(&mut self) {
        // iterative drop of uniquely owned tails
        let mut p = self.prev.take();
        while let Some(rc) = p {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => p = n.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64, // stack pointer at entry
    pub func: &'static Func,
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Run,
    Lock(u64, u32),
    Cv(u64, u64, bool), // cv, mutex, timed
    Futex(u64, bool),   // timed
    Join(u32),
    Paused,
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub st: St,
    pub tls: u64,
    pub sp: u64,
    pub sp_end: u64,
    pub dtors: Vec<(u64, u64)>,
    pub offered: bool, // the schedule point of the pending instruction has been decided
    pub phase: u8,
    pub timed_out: bool,
    pub spins: u32,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub known: FxMap<E, bool>,
    /// values given to expressions by concretisation: an instruction that is restarted, or meets
    /// the expression again, makes no second choice
    pub given: FxMap<E, i128>,
    pub model: Rc<std::cell::RefCell<Model>>,
    pub trace: List<Choice>,
    pub replay: Option<(Rc<Vec<Choice>>, usize)>,
    pub preempts: u32,
    pub sched: List<u32>,
    pub outs: List<(u32, E)>,
    pub steps: u64,
    pub clock: u64,
    pub late: u64,
    pub text: Rc<Vec<u8>>,
    pub forks: u32,
    pub keys: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub msg: String,
    pub assign: BTreeMap<u32, i128>,
    pub sched: Vec<u32>,
    pub stack: Vec<String>,
    pub outs: Vec<(u32, i128)>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub assign: BTreeMap<u32, i128>,
    pub sched: Vec<u32>,
    pub outs: Vec<(u32, i128)>,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub sched_forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_us: u64,
    pub max_query_us: u64,
    pub max_depth: u32,
    pub concretised: u64,
    pub implied: u64,
    pub reach: BTreeMap<u32, u64>,
    pub assert_ids: BTreeMap<u32, u64>,
    pub max_threads: u64,
    pub max_steps: u64,
}

pub struct Cfg {
    pub entry: String,
    pub params: BTreeMap<u32, i64>,
    pub jobs: usize,
    pub time: f64,
    pub preempt: u32,
    pub max_steps: u64,
    pub bv: bool,
    pub max_viol: usize,
    pub samples: usize,
    pub seed: u32,
    pub sched_mask: u32, // which lock modes are schedule points: 1 mutex, 2 rd, 4 wr, 8 atomics
    pub qtimeout: u32,
    pub verbose: bool,
    pub max_paths: u64,
}

pub struct Shared {
    pub queue: Mutex<Vec<Vec<Choice>>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub samples: Mutex<Vec<Sample>>,
    pub errors: Mutex<BTreeMap<String, u64>>,
    pub stats: Mutex<Stats>,
    pub fns: Mutex<BTreeSet<(String, String)>>,
    pub npaths: AtomicUsize,
}

/// reason why the current state stops
pub enum End {
    Infeasible,
    Complete,
    Switch, // state was put back / replaced
    Violation(String, String, String),
    Error(String),
}
type Res<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum X {
    None,
    Nop,
    Zero,
    Memcpy,
    Memmove,
    Memset,
    Assume,
    Expect,
    Abort,
    SAddSat,
    SSubSat,
    UAddSat,
    USubSat,
    SAddO,
    SSubO,
    SMulO,
    UAddO,
    USubO,
    UMulO,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitrev,
    Smax,
    Smin,
    Umax,
    Umin,
    Scmp,
    Ucmp,
    Abs,
    Tls,
    VecRedAdd,
    VecRedOr,
    VecRedAnd,
    VecRedUmax,
    LoadRel,
    FAbs,
    FToI(bool),
    FUn(u8),
    FMin,
    FMax,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Strlen,
    PthreadCreate,
    PthreadJoin,
    PthreadSelf,
    KeyCreate,
    SetSpecific,
    GetSpecific,
    Syscall,
    Sysconf,
    SchedYield,
    Clock,
    Write,
    Writev,
    Errno,
    AtExit,
    Gettid,
    ThrLocalNoop,
    Sleep(u8),
    Exit,
    Pause,
    VpDone,
    VpSym,
    VpParam,
    VpAssume,
    VpAssert,
    VpReach,
    VpOut,
    VpMax,
    VpMin,
    VpIte,
    VpAnd,
    VpOr,
    VpConc,
    VpAcquire,
    VpTryAcquire,
    VpRelease,
    VpCvWait,
    VpCvNotify,
    VpYield,
    Getrandom,
    VpTid,
    VpIsSym,
    VpStdout,
    ObjSize,
    Unsup,
}

pub fn ext_of(n: &str) -> X {
    use X::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        if p("lifetime") || p("experimental.noalias") || p("dbg") || p("donothing") || p("prefetch") || p("invariant") || p("x86.sse2.pause") || p("va_") || p("fake.use") {
            return Nop;
        }
        let table: &[(&str, X)] = &[
            ("memcpy", Memcpy),
            ("memmove", Memmove),
            ("memset", Memset),
            ("assume", Assume),
            ("expect", Expect),
            ("trap", Abort),
            ("ubsantrap", Abort),
            ("debugtrap", Abort),
            ("sadd.sat", SAddSat),
            ("ssub.sat", SSubSat),
            ("uadd.sat", UAddSat),
            ("usub.sat", USubSat),
            ("sadd.with", SAddO),
            ("ssub.with", SSubO),
            ("smul.with", SMulO),
            ("uadd.with", UAddO),
            ("usub.with", USubO),
            ("umul.with", UMulO),
            ("ctlz", Ctlz),
            ("cttz", Cttz),
            ("ctpop", Ctpop),
            ("fshl", Fshl),
            ("fshr", Fshr),
            ("bswap", Bswap),
            ("bitreverse", Bitrev),
            ("smax", Smax),
            ("smin", Smin),
            ("umax", Umax),
            ("umin", Umin),
            ("scmp", Scmp),
            ("ucmp", Ucmp),
            ("abs", Abs),
            ("is.constant", Zero),
            ("threadlocal", Tls),
            ("vector.reduce.add", VecRedAdd),
            ("vector.reduce.or", VecRedOr),
            ("vector.reduce.and", VecRedAnd),
            ("vector.reduce.umax", VecRedUmax),
            ("load.relative", LoadRel),
            ("fabs", FAbs),
            ("fptoui.sat", FToI(false)),
            ("fptosi.sat", FToI(true)),
            ("floor", FUn(0)),
            ("ceil", FUn(1)),
            ("trunc", FUn(2)),
            ("round", FUn(3)),
            ("rint", FUn(4)),
            ("sqrt", FUn(5)),
            ("minnum", FMin),
            ("maxnum", FMax),
            ("objectsize", ObjSize),
            ("launder", Expect),
            ("strip", Expect),
        ];
        for (k, v) in table {
            if p(k) {
                return *v;
            }
        }
        return Unsup;
    }
    match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcmp" | "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memcpy" => Memcpy,
        "memmove" => Memmove,
        "memset" => Memset,
        "pthread_create" => PthreadCreate,
        "pthread_join" => PthreadJoin,
        "pthread_self" => PthreadSelf,
        "pthread_key_create" => KeyCreate,
        "pthread_setspecific" => SetSpecific,
        "pthread_getspecific" => GetSpecific,
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "pthread_detach" | "pthread_key_delete" | "sigaltstack" | "munmap" | "mprotect" | "close"
        | "getenv" | "dlsym" | "pthread_attr_setguardsize" | "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" => Zero,
        "syscall" => Syscall,
        "getrandom" => Getrandom,
        "sysconf" => Sysconf,
        "sched_yield" => SchedYield,
        "clock_gettime" => Clock,
        "write" => Write,
        "writev" => Writev,
        "__errno_location" => Errno,
        "__cxa_thread_atexit_impl" => AtExit,
        "gettid" | "getpid" => Gettid,
        "nanosleep" => Sleep(0),
        "clock_nanosleep" => Sleep(2),
        "exit" => Exit,
        "pause" => Pause,
        "vp_done" => VpDone,
        "abort" | "_exit" => Abort,
        "vp_sym" => VpSym,
        "vp_param" => VpParam,
        "vp_assume" => VpAssume,
        "vp_assert" => VpAssert,
        "vp_reach" => VpReach,
        "vp_out" => VpOut,
        "vp_max" => VpMax,
        "vp_min" => VpMin,
        "vp_ite" => VpIte,
        "vp_and" => VpAnd,
        "vp_or" => VpOr,
        "vp_conc" => VpConc,
        "vp_acquire" => VpAcquire,
        "vp_try_acquire" => VpTryAcquire,
        "vp_release" => VpRelease,
        "vp_cv_wait" => VpCvWait,
        "vp_cv_notify" => VpCvNotify,
        "vp_yield" => VpYield,
        "vp_tid" => VpTid,
        "vp_is_sym" => VpIsSym,
        "vp_stdout" => VpStdout,
        _ => Unsup,
    }
}

fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub struct Worker {
    pub m: &'static Module,
    pub cfg: &'static Cfg,
    pub sh: &'static Shared,
    pub x: Ctx,
    pub z: Z3,
    pub stack: Vec<State>,
    pub stats: Stats,
    pub exts: Rc<Vec<X>>,
    pub cov: Vec<Option<Box<[bool]>>>,
    pub start: Instant,
}

pub fn init_state(m: &'static Module) -> State {
    let mut mem = Mem::new(RW_BASE, RO_BASE, &m.ro);
    mem.brk = RW_BASE + m.rw.len() as u64;
    mem.write_c(RW_BASE, &m.rw).unwrap();
    mem.brk = (mem.brk + 4095) / 4096 * 4096;
    State {
        mem,
        th: vec![],
        cur: 0,
        pc: vec![],
        known: Default::default(),
        given: Default::default(),
        model: Rc::new(std::cell::RefCell::new(Model::default())),
        trace: None,
        replay: None,
        preempts: 0,
        sched: None,
        outs: None,
        steps: 0,
        clock: 0,
        late: 0,
        text: Rc::new(vec![]),
        forks: 0,
        keys: 0,
    }
}

impl State {
    fn push_choice(&mut self, c: Choice) {
        let prev = self.trace.take();
        self.trace = Some(Rc::new(Cons { v: c, prev }));
    }
    fn next_replay(&mut self) -> Option<Choice> {
        if let Some((v, p)) = &mut self.replay {
            if *p < v.len() {
                let c = v[*p];
                *p += 1;
                return Some(c);
            }
        }
        None
    }
    fn replaying(&self) -> bool {
        matches!(&self.replay, Some((v, p)) if *p < v.len())
    }
    fn assume_raw(&mut self, x: &mut Ctx, c: E, b: bool) {
        let e = if b { c } else { x.not(c) };
        if e == T {
            return;
        }
        self.pc.push(e);
        self.learn(x, e);
    }
    fn learn(&mut self, x: &Ctx, e: E) {
        // record literals of a true formula
        match x.nodes[e as usize] {
            N::Not(a) => {
                self.known.insert(a, false);
                if let N::Or(p, q) = x.nodes[a as usize] {
                    self.learn_false(x, p);
                    self.learn_false(x, q);
                }
            }
            N::And(a, b) => {
                self.known.insert(e, true);
                self.learn(x, a);
                self.learn(x, b);
            }
            _ => {
                self.known.insert(e, true);
            }
        }
    }
    fn learn_false(&mut self, x: &Ctx, e: E) {
        match x.nodes[e as usize] {
            N::Not(a) => self.learn(x, a),
            N::Or(a, b) => {
                self.known.insert(e, false);
                self.learn_false(x, a);
                self.learn_false(x, b);
            }
            _ => {
                self.known.insert(e, false);
            }
        }
    }
    fn record(&mut self) {
        let prev = self.sched.take();
        self.sched = Some(Rc::new(Cons { v: self.cur as u32, prev }));
    }
    pub fn new_thread(&mut self, m: &'static Module) -> usize {
        let tls = self.mem.alloc(m.tls.len() as u64 + 64, m.tls_align.max(64));
        self.mem.write_c(tls, &m.tls).unwrap();
        let stk = self.mem.alloc(1 << 20, 4096);
        self.th.push(Thread { frames: vec![], st: St::Run, tls, sp: stk, sp_end: stk + (1 << 20), dtors: vec![], offered: false, phase: 0, timed_out: false, spins: 0 });
        self.th.len() - 1
    }
}

impl Worker {
    pub fn new(m: &'static Module, cfg: &'static Cfg, sh: &'static Shared, start: Instant) -> Worker {
        let exts = m.funcs.iter().map(|f| if f.body.is_none() || f.name.starts_with("vp_") { ext_of(&f.name) } else { X::None }).collect();
        Worker {
            m,
            cfg,
            sh,
            x: Ctx::new(),
            z: Z3::new(cfg.bv, cfg.qtimeout, cfg.seed),
            stack: vec![],
            stats: Stats::default(),
            exts: Rc::new(exts),
            cov: vec![None; m.funcs.len()],
            start,
        }
    }
    // ---- value helpers -----------------------------------------------------
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => {
                if w == 1 {
                    self.x.k((*c & 1) as i128)
                } else {
                    self.x.k(sext(*c, w) as i128)
                }
            }
            Val::S(e) => *e,
            Val::W(c) => self.x.k(*c as i128),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, e: E, w: u32) -> Val {
        match self.x.kval(e) {
            Some(k) => Val::C(mask(k as u64, w)),
            None => Val::S(e),
        }
    }
    fn simp(&mut self, st: &State, c: E) -> E {
        if c == T || c == F {
            return c;
        }
        if let Some(b) = st.known.get(&c) {
            return if *b { T } else { F };
        }
        match self.x.nodes[c as usize] {
            N::Not(a) => {
                let s = self.simp(st, a);
                self.x.not(s)
            }
            N::And(a, b) => {
                let p = self.simp(st, a);
                if p == F {
                    return F;
                }
                let q = self.simp(st, b);
                self.x.and(p, q)
            }
            N::Or(a, b) => {
                let p = self.simp(st, a);
                if p == T {
                    return T;
                }
                let q = self.simp(st, b);
                self.x.or(p, q)
            }
            _ => c,
        }
    }
    fn eval(&self, st: &State, e: E) -> i128 {
        self.x.eval(e, &mut st.model.borrow_mut())
    }

    // ---- forking -----------------------------------------------------------
    /// decide a symbolic condition, forking the state if both sides are possible.
    /// `st` must be at the start of a restartable instruction.
    fn branch(&mut self, st: &mut State, c: E) -> Res<bool> {
        let c = self.simp(st, c);
        if c == T {
            return Ok(true);
        }
        if c == F {
            return Ok(false);
        }
        if let Some(ch) = st.next_replay() {
            if let Choice::B(b, implied) = ch {
                st.push_choice(ch);
                if implied {
                    self.know(st, c, b);
                } else {
                    st.assume_raw(&mut self.x, c, b);
                }
                self.after_replay(st)?;
                return Ok(b);
            }
            let sh = self.x.show(c); return Err(End::Error(format!("replay divergence: {:?} at branch {}", ch, sh)));
        }
        let mv = self.eval(st, c) != 0;
        let other = if mv { self.x.not(c) } else { c };
        let (r, model) = self.z.check(&self.x, &st.pc, Some(other), true);
        if r == R::Unsat {
            self.stats.implied += 1;
            st.push_choice(Choice::B(mv, true));
            self.know(st, c, mv);
            return Ok(mv);
        }
        if r == R::Unknown {
            return Err(End::Error("solver returned unknown on a branch".into()));
        }
        self.stats.forks += 1;
        let mut alt = st.clone();
        alt.push_choice(Choice::B(!mv, false));
        alt.assume_raw(&mut self.x, c, !mv);
        alt.model = Rc::new(std::cell::RefCell::new(model.unwrap()));
        alt.forks += 1;
        self.push_alt(alt);
        st.push_choice(Choice::B(mv, false));
        st.assume_raw(&mut self.x, c, mv);
        st.forks += 1;
        Ok(mv)
    }
    fn know(&mut self, st: &mut State, c: E, b: bool) {
        let e = if b { c } else { self.x.not(c) };
        st.learn(&self.x, e);
    }
    fn after_replay(&mut self, st: &mut State) -> Res<()> {
        if !st.replaying() {
            st.replay = None;
            let (r, m) = self.z.check(&self.x, &st.pc, None, true);
            match r {
                R::Sat => st.model = Rc::new(std::cell::RefCell::new(m.unwrap())),
                R::Unsat => return Err(End::Error("replayed prefix is infeasible".into())),
                R::Unknown => return Err(End::Error("solver returned unknown".into())),
            }
        }
        Ok(())
    }
    fn push_alt(&mut self, alt: State) {
        self.stack.push(alt);
        if self.sh.idle.load(Ordering::Relaxed) > 0 && self.stack.len() > 1 {
            let mut q = self.sh.queue.lock().unwrap();
            if q.len() < self.cfg.jobs {
                let s = self.stack.remove(0);
                q.push(to_vec(&s.trace));
                self.sh.cv.notify_one();
            }
        }
    }
    /// fork over all the values of e; returns the one of this path
    fn conc(&mut self, st: &mut State, e: E) -> Res<i128> {
        if let Some(w) = self.has_flt(e) {
            let ty = if w == 32 { Ty::F32 } else { Ty::F64 };
            let Some((n, d)) = self.rat(&ty, &Val::S(e)) else { return Err(End::Error("float".into())) };
            let n = self.conc(st, n)?;
            let d = self.conc(st, d)?;
            return Ok(flt_bits(n, d, w) as i128);
        }
        loop {
            if let Some(k) = self.x.kval(e) {
                return Ok(k);
            }
            if let Some(v) = st.given.get(&e) {
                return Ok(*v);
            }
            let v = if let Some(ch) = st.next_replay() {
                match ch {
                    Choice::V(v) => {
                        st.push_choice(ch);
                        self.after_replay(st)?;
                        v
                    }
                    _ => return Err(End::Error("replay divergence at concretisation".into())),
                }
            } else {
                let v = self.eval(st, e);
                st.push_choice(Choice::V(v));
                v
            };
            self.stats.concretised += 1;
            let k = self.x.k(v);
            let c = self.x.eq(e, k);
            if self.branch(st, c)? {
                st.given.insert(e, v);
                return Ok(v);
            }
            if self.stats.concretised > 50_000_000 {
                return Err(End::Error("concretisation limit".into()));
            }
        }
    }
    /// a float as a quotient of integers
    fn rat(&mut self, ty: &Ty, v: &Val) -> Option<(E, E)> {
        match v {
            Val::C(c) => {
                let f = fl(ty, *c);
                if f.fract() == 0.0 && f.abs() < (1i64 << 22) as f64 {
                    let n = self.x.k(f as i128);
                    let d = self.x.k(1);
                    Some((n, d))
                } else {
                    None
                }
            }
            Val::S(e) => match self.x.nodes[*e as usize] {
                N::Flt(n, d, _) => Some((n, d)),
                N::K(k) => self.rat(ty, &Val::C(k as u64)),
                N::Ite(c, a, b) => {
                    let (n1, d1) = self.rat(ty, &Val::S(a))?;
                    let (n2, d2) = self.rat(ty, &Val::S(b))?;
                    Some((self.x.ite(c, n1, n2), self.x.ite(c, d1, d2)))
                }
                _ => None,
            },
            _ => None,
        }
    }
    /// two floats as bits, one of them symbolic, in bit-vector mode
    fn fpair(&mut self, ty: &Ty, a: &Val, b: &Val) -> Option<(E, E)> {
        if !self.cfg.bv || !matches!((a, b), (Val::S(_), Val::S(_) | Val::C(_)) | (Val::C(_), Val::S(_))) {
            return None;
        }
        let w = ty.bits();
        let mut e = |v: &Val| match v {
            Val::S(e) => *e,
            Val::C(c) => self.x.k(sext(*c, w) as i128),
            _ => unreachable!(),
        };
        Some((e(a), e(b)))
    }
    fn has_flt(&self, e: E) -> Option<u32> {
        if self.cfg.bv {
            return None;
        }
        match self.x.nodes[e as usize] {
            N::Flt(_, _, w) => Some(w),
            N::Ite(_, a, b) => self.has_flt(a).or_else(|| self.has_flt(b)),
            _ => None,
        }
    }
    /// a symbolic float about to be used bit by bit takes one of its values
    fn unflt(&mut self, st: &mut State, v: &Val) -> Res<Option<Val>> {
        if let Val::S(e) = v {
            if self.has_flt(*e).is_some() {
                return Ok(Some(Val::C(self.conc(st, *e)? as u64)));
            }
        }
        Ok(None)
    }
    fn conc_val(&mut self, st: &mut State, v: &Val, w: u32) -> Res<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => Ok(mask(self.conc(st, *e)? as u64, w)),
            Val::W(c) => Ok(*c as u64),
            Val::A(_) => Err(End::Error("aggregate as scalar".into())),
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> Res<()> {
        let c = self.simp(st, c);
        if c == T {
            return Ok(());
        }
        if c == F {
            return Err(End::Infeasible);
        }
        if st.replaying() {
            st.assume_raw(&mut self.x, c, true);
            return Ok(());
        }
        if self.eval(st, c) != 0 {
            st.assume_raw(&mut self.x, c, true);
            return Ok(());
        }
        let (r, m) = self.z.check(&self.x, &st.pc, Some(c), true);
        match r {
            R::Sat => {
                st.assume_raw(&mut self.x, c, true);
                st.model = Rc::new(std::cell::RefCell::new(m.unwrap()));
                Ok(())
            }
            R::Unsat => Err(End::Infeasible),
            R::Unknown => Err(End::Error("solver returned unknown on an assumption".into())),
        }
    }
    fn assert(&mut self, st: &mut State, c: E, id: u32) -> Res<()> {
        self.stats.asserts += 1;
        *self.stats.assert_ids.entry(id).or_insert(0) += 1;
        let c = self.simp(st, c);
        if c == T {
            self.stats.asserts_trivial += 1;
            return Ok(());
        }
        if st.replaying() {
            if c == F {
                return Err(End::Infeasible);
            }
            st.assume_raw(&mut self.x, c, true);
            return Ok(());
        }
        let nc = self.x.not(c);
        let (bad, m) = if c != F && self.eval(st, c) != 0 {
            let (r, m) = self.z.check(&self.x, &st.pc, Some(nc), true);
            match r {
                R::Sat => (true, m),
                R::Unsat => (false, None),
                R::Unknown => return Err(End::Error(format!("solver returned unknown on assertion {}", id))),
            }
        } else {
            (true, Some(st.model.borrow().clone()))
        };
        if bad {
            let mut s2 = st.clone();
            s2.model = Rc::new(std::cell::RefCell::new(m.unwrap()));
            self.report(&s2, "assert", &format!("{}", id), "assertion violated");
            if c == F {
                return Err(End::Infeasible);
            }
            return self.assume(st, c);
        }
        // implied: remember as a fact, no need to constrain
        self.know(st, c, true);
        Ok(())
    }
    pub fn assign(&self, st: &State) -> BTreeMap<u32, i128> {
        let m = st.model.borrow();
        self.x.vars.iter().enumerate().map(|(i, v)| (v.name, m.get(i as u32, &self.x))).collect()
    }
    fn outs(&self, st: &State) -> Vec<(u32, i128)> {
        to_vec(&st.outs).into_iter().map(|(t, e)| (t, self.eval(st, e))).collect()
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.th[st.cur].frames.iter().rev() {
            let d = f.func.dbg.get(f.pc as usize).copied().unwrap_or(0);
            for (n, file, line) in self.m.locate(d) {
                v.push(format!("{} ({}:{})", n, file, line));
            }
            if d == 0 {
                v.push(self.m.funcs[f.f as usize].name.clone());
            }
        }
        v.truncate(40);
        v
    }
    fn report(&mut self, st: &State, kind: &str, id: &str, msg: &str) {
        let stack = self.stack_of(st);
        let v = Violation { kind: kind.into(), id: id.into(), msg: msg.into(), assign: self.assign(st), sched: to_vec(&st.sched), stack, outs: self.outs(st) };
        let mut l = self.sh.viol.lock().unwrap();
        if !l.iter().any(|o| o.kind == v.kind && o.id == v.id) {
            l.push(v);
        }
        if l.len() >= self.cfg.max_viol {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    // ---- main loop ---------------------------------------------------------
    pub fn work(&mut self) {
        loop {
            // get a job
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    if let Some(j) = q.pop() {
                        break Some(j);
                    }
                    let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == self.cfg.jobs {
                        self.sh.stop.store(true, Ordering::Relaxed);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break None;
                    }
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let job = match job {
                Some(j) => j,
                None => break,
            };
            let mut st = init_state(self.m);
            let t = st.new_thread(self.m);
            let f = match self.m.fidx.get(&self.cfg.entry) {
                Some(f) => *f,
                None => {
                    self.err("entry point not found".into());
                    return;
                }
            };
            if !job.is_empty() {
                st.replay = Some((Rc::new(job), 0));
            }
            self.push_frame(&mut st, t, f, vec![]);
            self.stack.push(st);
            while let Some(st) = self.stack.pop() {
                if self.sh.stop.load(Ordering::Relaxed) {
                    break;
                }
                if self.start.elapsed().as_secs_f64() > self.cfg.time {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    break;
                }
                self.run(st);
            }
            self.stack.clear();
        }
        self.sh.cv.notify_all();
        // merge statistics
        self.stats.queries = self.z.queries;
        self.stats.sat = self.z.sat;
        self.stats.unsat = self.z.unsat;
        self.stats.unknown = self.z.unknown;
        self.stats.solver_us = self.z.time.as_micros() as u64;
        self.stats.max_query_us = self.z.max_q.as_micros() as u64;
        let mut s = self.sh.stats.lock().unwrap();
        macro_rules! sum { ($($f:ident),*) => { $( s.$f += self.stats.$f; )* } }
        macro_rules! mx { ($($f:ident),*) => { $( s.$f = s.$f.max(self.stats.$f); )* } }
        sum!(paths, infeasible, forks, sched_forks, steps, asserts, asserts_trivial, queries, sat, unsat, unknown, solver_us, concretised, implied);
        mx!(max_query_us, max_depth, max_threads, max_steps);
        for (k, v) in &self.stats.reach {
            *s.reach.entry(*k).or_insert(0) += v;
        }
        for (k, v) in &self.stats.assert_ids {
            *s.assert_ids.entry(*k).or_insert(0) += v;
        }
        drop(s);
        // executed functions (including inlined ones)
        let mut dbgs = BTreeSet::new();
        for (f, c) in self.cov.iter().enumerate() {
            if let (Some(c), Some(b)) = (c, self.m.funcs[f].parsed.get()) {
                for (i, h) in c.iter().enumerate() {
                    if *h && b.dbg[i] != 0 {
                        dbgs.insert(b.dbg[i]);
                    }
                }
            }
        }
        let mut fns = BTreeSet::new();
        for d in dbgs {
            for (n, file, _) in self.m.locate(d) {
                fns.insert((file, n));
            }
        }
        self.sh.fns.lock().unwrap().extend(fns);
    }
    fn err(&mut self, s: String) {
        *self.sh.errors.lock().unwrap().entry(s).or_insert(0) += 1;
    }
    fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let end = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(End::Switch) => {}
                Err(e) => break e,
            }
        };
        self.stats.steps += st.steps - s0;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_depth = self.stats.max_depth.max(st.forks);
        self.stats.max_threads = self.stats.max_threads.max(st.th.len() as u64);
        match end {
            End::Infeasible => self.stats.infeasible += 1,
            End::Complete => {
                self.stats.paths += 1;
                let n = self.sh.npaths.fetch_add(1, Ordering::Relaxed);
                if self.cfg.max_paths > 0 && n as u64 >= self.cfg.max_paths {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                }
                // sample paths at exponentially growing distances
                let h = (n as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
                let want = n < 3 || h % ((n as u64 / 8) + 1) == 0;
                if want {
                    let s = Sample { assign: self.assign(&st), sched: to_vec(&st.sched), outs: self.outs(&st) };
                    let mut l = self.sh.samples.lock().unwrap();
                    if l.len() < self.cfg.samples {
                        l.push(s);
                    } else if self.cfg.samples > 0 {
                        let k = (h as usize) % l.len();
                        l[k] = s;
                    }
                }
            }
            End::Violation(k, id, msg) => {
                if st.replaying() {
                    self.err("violation while replaying".into());
                } else {
                    self.report(&st, &k, &id, &msg);
                    self.stats.paths += 1;
                }
            }
            End::Error(e) => {
                let s = self.stack_of(&st);
                if self.cfg.verbose {
                    eprintln!("error: {} at {:#?}", e, s);
                }
                self.err(format!("{} [{}]", e, s.first().cloned().unwrap_or_default()));
            }
            End::Switch => {}
        }
    }
    fn push_frame(&mut self, st: &mut State, t: usize, f: u32, args: Vec<Val>) {
        let func = self.m.body(f).expect("body");
        if self.cov[f as usize].is_none() {
            self.cov[f as usize] = Some(vec![false; func.code.len()].into());
        }
        let mut regs = vec![Val::C(0); func.nregs as usize];
        for (k, a) in args.into_iter().enumerate() {
            if k < func.params.len() {
                regs[func.params[k] as usize] = a;
            }
        }
        let sp = st.th[t].sp;
        st.th[t].frames.push(Frame { f, pc: 0, regs, sp, func });
    }

    // ---- scheduling --------------------------------------------------------
    fn runnable(&self, st: &State, t: usize) -> bool {
        match &st.th[t].st {
            St::Run => true,
            St::Done | St::Paused => false,
            St::Lock(a, mode) => self.lock_free(st, *a, *mode),
            St::Cv(_, m, timed) => *timed && self.lock_free(st, *m, 0),
            St::Futex(_, timed) => *timed,
            St::Join(o) => st.th[*o as usize].st == St::Done,
        }
    }
    fn lock_free(&self, st: &State, a: u64, mode: u32) -> bool {
        let v = st.mem.read_c(a, 8).ok().flatten().unwrap_or(0) as i64;
        match mode {
            1 => v >= 0,
            _ => v == 0,
        }
    }
    fn sched_choice(&mut self, st: &mut State, cands: Vec<usize>, preempt_from: Option<usize>) -> Res<usize> {
        // cands[0] is the default
        if cands.len() == 1 {
            return Ok(cands[0]);
        }
        if let Some(ch) = st.next_replay() {
            if let Choice::S(t) = ch {
                st.push_choice(ch);
                if let Some(c) = preempt_from {
                    if t as usize != c {
                        st.preempts += 1;
                    }
                }
                self.after_replay(st)?;
                return Ok(t as usize);
            }
            return Err(End::Error("replay divergence at schedule point".into()));
        }
        for &t in cands[1..].iter().rev() {
            self.stats.sched_forks += 1;
            let mut alt = st.clone();
            alt.push_choice(Choice::S(t as u32));
            if preempt_from.is_some() {
                alt.preempts += 1;
                alt.th[st.cur].offered = true;
            }
            alt.cur = t;
            self.wake_if_needed(&mut alt, t);
            self.push_alt(alt);
        }
        st.push_choice(Choice::S(cands[0] as u32));
        Ok(cands[0])
    }
    fn wake_if_needed(&self, st: &mut State, t: usize) {
        // a thread chosen by the scheduler becomes running (it re-executes its blocking instruction)
        let th = &mut st.th[t];
        match th.st {
            St::Cv(_, _, _) | St::Futex(_, _) => {
                th.timed_out = true;
                th.st = St::Run;
            }
            _ => th.st = St::Run,
        }
    }
    /// current thread cannot continue: pick another
    fn resched(&mut self, st: &mut State) -> Res<()> {
        let mut cands: Vec<usize> = (0..st.th.len()).filter(|t| self.runnable(st, *t)).collect();
        // prefer lowest distance after current to be fair
        let cur = st.cur;
        cands.sort_by_key(|t| (*t + st.th.len() - cur - 1) % st.th.len());
        if cands.is_empty() {
            if st.th.iter().all(|t| t.st == St::Done) {
                return Err(End::Complete);
            }
            let desc: Vec<String> = st.th.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, t.st)).collect();
            return Err(End::Violation("deadlock".into(), "deadlock".into(), desc.join(" ")));
        }
        let t = self.sched_choice(st, cands, None)?;
        st.cur = t;
        self.wake_if_needed(st, t);
        Err(End::Switch)
    }
    /// schedule point before a visible operation of the current thread.
    fn sched_point(&mut self, st: &mut State, kind: u32) -> Res<()> {
        if st.th.len() < 2 || self.cfg.sched_mask & kind == 0 {
            return Ok(());
        }
        if st.th[st.cur].offered {
            return Ok(());
        }
        st.th[st.cur].spins += 1;
        if st.th[st.cur].spins > 2000 {
            st.th[st.cur].spins = 0;
            return self.force_yield(st);
        }
        if st.preempts >= self.cfg.preempt {
            return Ok(());
        }
        let cur = st.cur;
        let mut cands: Vec<usize> = (0..st.th.len()).filter(|t| *t != cur && self.runnable(st, *t)).collect();
        if cands.is_empty() {
            return Ok(());
        }
        cands.insert(0, cur);
        let t = self.sched_choice(st, cands, Some(cur))?;
        st.th[cur].offered = true;
        if t != cur {
            st.cur = t;
            self.wake_if_needed(st, t);
            return Err(End::Switch);
        }
        Ok(())
    }
    fn force_yield(&mut self, st: &mut State) -> Res<()> {
        // fair switch to the next runnable thread, not counted as a choice
        let n = st.th.len();
        for d in 1..n {
            let t = (st.cur + d) % n;
            if self.runnable(st, t) {
                st.th[st.cur].offered = true;
                st.cur = t;
                self.wake_if_needed(st, t);
                return Err(End::Switch);
            }
        }
        Ok(())
    }
    fn granted(&self, st: &mut State) {
        let c = st.cur;
        st.th[c].offered = false;
        st.record();
    }

    // ---- memory ------------------------------------------------------------
    fn merr<T>(&self, r: Result<T, MemErr>) -> Res<T> {
        r.map_err(|e| End::Violation("memory".into(), "memory".into(), format!("invalid memory access at {:#x}", e.0)))
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> Res<Val> {
        match ty {
            Ty::Int(w) if *w > 64 => {
                let n = ((*w + 7) / 8) as u64;
                let mut v = 0u128;
                for k in 0..n {
                    let b = self.load(st, addr + k, &Ty::Int(8))?;
                    let b = self.conc_val(st, &b, 8)?;
                    v |= (b as u128) << (8 * k);
                }
                Ok(Val::W(v))
            }
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size();
                let w = ty.bits();
                let r = st.mem.read_c(addr, n);
                match self.merr(r)? {
                    Some(v) => Ok(Val::C(mask(v, w))),
                    None => {
                        let e = self.load_sym(st, addr, n);
                        if w == 1 {
                            let e = self.x.modf(e, 2);
                            return Ok(self.v(e, 1));
                        }
                        let e = self.x.wrap(e, w);
                        Ok(self.v(e, w))
                    }
                }
            }
            Ty::Vec(n, t) => {
                if t.bits() < 8 {
                    return Err(End::Error("load of bit vector".into()));
                }
                let s = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for k in 0..*n as u64 {
                    v.push(self.load(st, addr + k * s, t)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                let mut v = vec![];
                for k in 0..*n {
                    v.push(self.load(st, addr + k * s, t)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(fs, _) => {
                let (o, _) = ty.layout();
                let mut v = vec![];
                for (k, f) in fs.iter().enumerate() {
                    v.push(self.load(st, addr + o[k], f)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => Err(End::Error(format!("load of {:?}", ty))),
        }
    }
    fn load_sym(&mut self, st: &State, addr: u64, n: u64) -> E {
        let mut k = 0;
        let mut acc = self.x.k(0);
        while k < n {
            let (b, (e, i)) = st.mem.byte(addr + k);
            if e == NOE {
                let c = self.x.k((b as i128) << (8 * k));
                acc = self.x.add(acc, c);
                k += 1;
                continue;
            }
            let mut len = 1;
            while k + len < n {
                let (_, (e2, i2)) = st.mem.byte(addr + k + len);
                if e2 == e && i2 as u64 == i as u64 + len {
                    len += 1;
                } else {
                    break;
                }
            }
            let mut p = self.x.divf(e, 1i128 << (8 * i));
            if k + len < n {
                p = self.x.modf(p, 1i128 << (8 * len));
            }
            let p = self.x.scale(p, 1i128 << (8 * k));
            acc = self.x.add(acc, p);
            k += len;
        }
        acc
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> Res<()> {
        match (v, ty) {
            (Val::C(c), t) if t.is_scalar() => {
                let n = ty.store_size() as usize;
                let b = c.to_le_bytes();
                let r = if n <= 8 {
                    st.mem.write_c(addr, &b[..n])
                } else {
                    let b = (*c as u128).to_le_bytes();
                    st.mem.write_c(addr, &b[..n])
                };
                self.merr(r)
            }
            (Val::S(e), t) if t.is_scalar() => {
                let r = st.mem.write_s(addr, *e, ty.store_size());
                self.merr(r)
            }
            (Val::W(c), t) if t.is_scalar() => {
                let b = c.to_le_bytes();
                let n = ty.store_size() as usize;
                let r = st.mem.write_c(addr, &b[..n]);
                self.merr(r)
            }
            (Val::A(l), Ty::Vec(_, t)) | (Val::A(l), Ty::Arr(_, t)) => {
                let s = t.size();
                let l = l.clone();
                for (k, x) in l.iter().enumerate() {
                    self.store(st, addr + k as u64 * s, t, x)?;
                }
                Ok(())
            }
            (Val::A(l), Ty::Struct(fs, _)) => {
                let (o, _) = ty.layout();
                let l = l.clone();
                for (k, f) in fs.iter().enumerate() {
                    self.store(st, addr + o[k], f, &l[k])?;
                }
                Ok(())
            }
            _ => Err(End::Error(format!("store of {:?}", ty))),
        }
    }

    // ---- operands ----------------------------------------------------------
    fn op(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::C(v) => Val::C(*v),
            Op::R(r) => st.th[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(k) => cval(&st.th[st.cur].frames.last().unwrap().func.consts[*k as usize]),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NOREG {
            let c = st.cur;
            st.th[c].frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn next(&self, st: &mut State) {
        let c = st.cur;
        st.th[c].frames.last_mut().unwrap().pc += 1;
    }
    fn addr(&mut self, st: &mut State, o: &Op) -> Res<u64> {
        let v = self.op(st, o);
        let a = self.conc_val(st, &v, 64)?;
        Ok(a)
    }
    fn jump(&self, st: &mut State, t: &Target) {
        let c = st.cur;
        let vals: Vec<Val> = t.copies.iter().map(|(_, o)| self.op(st, o)).collect();
        let fr = st.th[c].frames.last_mut().unwrap();
        for ((d, _), v) in t.copies.iter().zip(vals) {
            fr.regs[*d as usize] = v;
        }
        fr.pc = fr.func.blocks[t.bb as usize];
    }

    // ---- one instruction -----------------------------------------------------
    fn step(&mut self, st: &mut State) -> Res<()> {
        st.steps += 1;
        if st.steps & 0xfff == 0 {
            if st.steps > self.cfg.max_steps {
                return Err(End::Violation("steps".into(), "steps".into(), "step limit exceeded (possible non-termination)".into()));
            }
            if self.sh.stop.load(Ordering::Relaxed) {
                return Err(End::Error("stopped".into()));
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.time {
                self.sh.timed_out.store(true, Ordering::Relaxed);
                self.sh.stop.store(true, Ordering::Relaxed);
                return Err(End::Error("stopped".into()));
            }
        }
        let cur = st.cur;
        let fr = st.th[cur].frames.last().unwrap();
        let func: &'static Func = fr.func;
        let pc = fr.pc as usize;
        self.cov[fr.f as usize].as_mut().unwrap()[pc] = true;
        let inst: &'static Inst = &func.code[pc];
        match inst {
            Inst::Bin { op, ty, d, a, b } => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let r = self.bin(st, *op, ty, &a, &b)?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Icmp { p, ty, d, a, b } => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let (ua, ub) = (self.unflt(st, &a)?, self.unflt(st, &b)?);
                let r = self.icmp(*p, ty, ua.as_ref().unwrap_or(&a), ub.as_ref().unwrap_or(&b));
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Cast { op, from, to, d, a } => {
                let a = self.op(st, a);
                let r = self.cast(st, *op, from, to, &a)?;
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Load { d, ty, p, atomic } => {
                if *atomic {
                    self.sched_point(st, 8)?;
                    let c = st.cur;
                    st.th[c].offered = false;
                }
                let a = self.addr(st, p)?;
                let v = self.load(st, a, ty)?;
                self.set(st, *d, v);
                self.next(st);
            }
            Inst::Store { ty, v, p, atomic } => {
                if *atomic {
                    self.sched_point(st, 8)?;
                    let c = st.cur;
                    st.th[c].offered = false;
                }
                let a = self.addr(st, p)?;
                let v = self.op(st, v);
                self.store(st, a, ty, &v)?;
                self.next(st);
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.op(st, base);
                let mut sym = None;
                let mut acc = match b {
                    Val::C(c) => c.wrapping_add(*off as u64),
                    Val::S(e) => {
                        sym = Some(e);
                        *off as u64
                    }
                    Val::A(_) => return Err(End::Error("vector gep".into())),
                    Val::W(_) => return Err(End::Error("wide gep".into())),
                };
                for (o, sc, w) in idx.iter() {
                    match self.op(st, o) {
                        Val::C(c) => acc = acc.wrapping_add((sext(c, *w) as u64).wrapping_mul(*sc as u64)),
                        Val::S(e) => {
                            let s = self.x.scale(e, *sc as i128);
                            sym = Some(match sym {
                                Some(p) => self.x.add(p, s),
                                None => s,
                            });
                        }
                        _ => return Err(End::Error("vector gep".into())),
                    }
                }
                let r = match sym {
                    None => Val::C(acc),
                    Some(e) => {
                        let e = self.x.addk(e, acc as i64 as i128);
                        let e = self.x.wrap(e, 64);
                        self.v(e, 64)
                    }
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Select { d, ty, cty, c, a, b } => {
                let c = self.op(st, c);
                let a = self.op(st, a);
                let b = self.op(st, b);
                let r = match (&c, cty) {
                    (Val::A(cs), _) => {
                        let (Val::A(av), Val::A(bv)) = (&a, &b) else { return Err(End::Error("vector select".into())) };
                        let (w, _) = match ty {
                            Ty::Vec(_, t) => (t.bits(), 0),
                            _ => (64, 0),
                        };
                        let mut out = vec![];
                        for k in 0..cs.len() {
                            out.push(match &cs[k] {
                                Val::C(x) => {
                                    if x & 1 != 0 {
                                        av[k].clone()
                                    } else {
                                        bv[k].clone()
                                    }
                                }
                                Val::S(ce) => {
                                    let x = self.e(&av[k], w);
                                    let y = self.e(&bv[k], w);
                                    let r = self.x.ite(*ce, x, y);
                                    self.v(r, w)
                                }
                                _ => return Err(End::Error("select".into())),
                            });
                        }
                        Val::A(out.into())
                    }
                    (Val::C(x), _) => {
                        if x & 1 != 0 {
                            a
                        } else {
                            b
                        }
                    }
                    (Val::S(ce), _) => {
                        let ce = self.simp(st, *ce);
                        if ce == T {
                            a
                        } else if ce == F {
                            b
                        } else {
                            match ty {
                                Ty::Int(w) if *w <= 64 => {
                                    let x = self.e(&a, *w);
                                    let y = self.e(&b, *w);
                                    let r = self.x.ite(ce, x, y);
                                    self.v(r, *w)
                                }
                                _ => {
                                    if self.branch(st, ce)? {
                                        a
                                    } else {
                                        b
                                    }
                                }
                            }
                        }
                    }
                    _ => return Err(End::Error("select".into())),
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::Br(t) => self.jump(st, t),
            Inst::CondBr { c, t, f } => {
                let c = self.op(st, c);
                let b = match c {
                    Val::C(x) => x & 1 != 0,
                    Val::S(e) => self.branch(st, e)?,
                    _ => return Err(End::Error("br".into())),
                };
                self.jump(st, if b { t } else { f });
            }
            Inst::Switch { w, v, def, cases } => {
                let v = self.op(st, v);
                match v {
                    Val::C(x) => {
                        let mut tg: &Target = def;
                        for (k, t) in cases.iter() {
                            if mask(*k, *w) == mask(x, *w) {
                                tg = t;
                                break;
                            }
                        }
                        self.jump(st, tg);
                    }
                    Val::S(e) => {
                        let mut tg: &Target = def;
                        for (k, t) in cases.iter() {
                            let ke = self.e(&Val::C(*k), *w);
                            let c = self.x.eq(e, ke);
                            if self.branch(st, c)? {
                                tg = t;
                                break;
                            }
                        }
                        self.jump(st, tg);
                    }
                    _ => return Err(End::Error("switch".into())),
                }
            }
            Inst::Ret { v } => {
                let r = v.as_ref().map(|o| self.op(st, o));
                self.do_ret(st, r)?;
            }
            Inst::Unreachable => {
                return Err(End::Violation("unreachable".into(), "unreachable".into(), "reached an unreachable instruction".into()));
            }
            Inst::Alloca { d, size, align } => {
                let th = &mut st.th[cur];
                let a = (*align).max(16);
                let p = (th.sp + a - 1) / a * a;
                th.sp = p + size;
                if th.sp > th.sp_end {
                    return Err(End::Violation("stack".into(), "stack".into(), "stack overflow".into()));
                }
                self.set(st, *d, Val::C(p));
                self.next(st);
            }
            Inst::ExtractValue { d, a, path } => {
                let mut v = self.op(st, a);
                for i in path.iter() {
                    v = match &v {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => return Err(End::Error("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
                self.next(st);
            }
            Inst::InsertValue { d, a, v, path, .. } => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let r = insert(&a, &v, path);
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::ExtractElement { d, a, i } => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc_val(st, &i, 64)?;
                let r = match &a {
                    Val::A(l) => l[i as usize].clone(),
                    _ => return Err(End::Error("extractelement".into())),
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Inst::InsertElement { d, n, a, v, i } => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let i = self.conc_val(st, &i, 64)?;
                let mut l: Vec<Val> = match &a {
                    Val::A(l) => l.to_vec(),
                    _ => vec![Val::C(0); *n as usize],
                };
                l[i as usize] = v;
                self.set(st, *d, Val::A(l.into()));
                self.next(st);
            }
            Inst::Shuffle { d, a, b, mask } => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let (Val::A(x), Val::A(y)) = (&a, &b) else { return Err(End::Error("shuffle".into())) };
                let n = x.len();
                let r: Vec<Val> = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            Val::C(0)
                        } else if (*m as usize) < n {
                            x[*m as usize].clone()
                        } else {
                            y[*m as usize - n].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::A(r.into()));
                self.next(st);
            }
            Inst::Rmw { d, op, ty, p, v } => {
                if op != "add" && op != "sub" {
                    self.sched_point(st, 8)?;
                    let c = st.cur;
                    st.th[c].offered = false;
                }
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let v = self.op(st, v);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(st, BinOp::Add, ty, &old, &v)?,
                    "sub" => self.bin(st, BinOp::Sub, ty, &old, &v)?,
                    "and" => self.bin(st, BinOp::And, ty, &old, &v)?,
                    "or" => self.bin(st, BinOp::Or, ty, &old, &v)?,
                    "xor" => self.bin(st, BinOp::Xor, ty, &old, &v)?,
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() {
                            "max" => Pred::Sge,
                            "min" => Pred::Sle,
                            "umax" => Pred::Uge,
                            _ => Pred::Ule,
                        };
                        let c = self.icmp(p, ty, &old, &v);
                        let w = ty.bits();
                        let c = self.e(&c, 1);
                        let x = self.e(&old, w);
                        let y = self.e(&v, w);
                        let r = self.x.ite(c, x, y);
                        self.v(r, w)
                    }
                    _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
                self.next(st);
            }
            Inst::Cmpxchg { d, ty, p, cmp, new } => {
                self.sched_point(st, 8)?;
                let c = st.cur;
                st.th[c].offered = false;
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let cmp = self.op(st, cmp);
                let new = self.op(st, new);
                let c = self.icmp(Pred::Eq, ty, &old, &cmp);
                let ok = match c {
                    Val::C(x) => x & 1 != 0,
                    Val::S(e) => self.branch(st, e)?,
                    _ => unreachable!(),
                };
                if ok {
                    self.store(st, a, ty, &new)?;
                }
                self.set(st, *d, Val::A(vec![old, Val::C(ok as u64)].into()));
                self.next(st);
            }
            Inst::Copy { d, a } => {
                let v = self.op(st, a);
                self.set(st, *d, v);
                self.next(st);
            }
            Inst::Fcmp { p, ty, d, a, b } => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                if let (Some((n1, d1)), Some((n2, d2))) = (self.rat(ty, &a), self.rat(ty, &b)) {
                    if matches!((&a, &b), (Val::S(_), _) | (_, Val::S(_))) {
                        let l = self.x.mul(n1, d2);
                        let r = self.x.mul(n2, d1);
                        let lim = if *ty == Ty::F32 { 1i128 << 22 } else { 1i128 << 51 };
                        if [l, r].iter().all(|e| self.x.lo(*e) > -lim && self.x.hi(*e) < lim) {
                            // rounding keeps different quotients of such integers apart and in order
                            let v = match p.as_str() {
                                "oeq" | "ueq" => self.x.eq(l, r),
                                "one" | "une" => {
                                    let e = self.x.eq(l, r);
                                    self.x.not(e)
                                }
                                "ogt" | "ugt" => self.x.lt(r, l),
                                "oge" | "uge" => self.x.le(r, l),
                                "olt" | "ult" => self.x.lt(l, r),
                                "ole" | "ule" => self.x.le(l, r),
                                "ord" | "true" => T,
                                _ => F,
                            };
                            let v = self.v(v, 1);
                            self.set(st, *d, v);
                            self.next(st);
                            return Ok(());
                        }
                    }
                }
                if let Some((x, y)) = self.fpair(ty, &a, &b) {
                    let w = ty.bits();
                    let (lt, gt, eq) = (self.x.fp(Fo::Lt, w, x, y), self.x.fp(Fo::Lt, w, y, x), self.x.fp(Fo::Eq, w, x, y));
                    let (le, ge) = (self.x.fp(Fo::Le, w, x, y), self.x.fp(Fo::Le, w, y, x));
                    let ord = self.x.or(le, ge);
                    let v = match p.as_str() {
                        "oeq" => eq,
                        "ogt" => gt,
                        "oge" => ge,
                        "olt" => lt,
                        "ole" => le,
                        "one" => self.x.or(lt, gt),
                        "ord" => ord,
                        "uno" => self.x.not(ord),
                        "une" => self.x.not(eq),
                        "ugt" => self.x.not(le),
                        "uge" => self.x.not(lt),
                        "ult" => self.x.not(ge),
                        "ule" => self.x.not(gt),
                        "ueq" => {
                            let n = self.x.not(ord);
                            self.x.or(n, eq)
                        }
                        "true" => T,
                        _ => F,
                    };
                    let v = self.v(v, 1);
                    self.set(st, *d, v);
                    self.next(st);
                    return Ok(());
                }
                let a = self.conc_val(st, &a, 64)?;
                let b = self.conc_val(st, &b, 64)?;
                let (x, y) = (fl(ty, a), fl(ty, b));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, Val::C(r as u64));
                self.next(st);
            }
            Inst::FNeg { ty, d, a } => {
                let a = self.op(st, a);
                if let Some((x, y)) = self.fpair(ty, &a, &Val::C(0)) {
                    let w = ty.bits();
                    let v = self.x.fp(Fo::Neg, w, x, y);
                    self.set(st, *d, Val::S(v));
                    self.next(st);
                    return Ok(());
                }
                let a = self.conc_val(st, &a, 64)?;
                self.set(st, *d, Val::C(lf(ty, -fl(ty, a))));
                self.next(st);
            }
            Inst::Call { d, rty, callee, args, argtys, .. } => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let a = self.addr(st, o)?;
                        if a >= FN_BASE && (a - FN_BASE) / 16 < self.m.funcs.len() as u64 {
                            ((a - FN_BASE) / 16) as u32
                        } else {
                            return Err(End::Violation("memory".into(), "memory".into(), format!("call of invalid pointer {:#x}", a)));
                        }
                    }
                };
                let fd = &self.m.funcs[f as usize];
                let ext = self.exts[f as usize];
                if fd.is_panic {
                    let msg = self.panic_msg(st, args);
                    let loc = self.panic_loc(st);
                    return Err(End::Violation("panic".into(), loc, format!("{} {}", short(&fd.name), msg)));
                }
                if ext == X::None {
                    let vals: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
                    self.push_frame(st, cur, f, vals);
                    if st.th[cur].frames.len() > 2000 {
                        return Err(End::Violation("stack".into(), "stack".into(), "call depth".into()));
                    }
                    return Ok(());
                }
                let vals: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
                if let Some(r) = self.external(st, ext, f, rty, &vals, argtys)? {
                    self.set(st, *d, r);
                    self.finish_call(st, inst);
                }
            }
            Inst::Nop => self.next(st),
            Inst::Unsupported(s) => return Err(End::Error(format!("unsupported instruction {}", s))),
        }
        Ok(())
    }
    fn finish_call(&self, st: &mut State, inst: &Inst) {
        if let Inst::Call { normal: Some(t), .. } = inst {
            self.jump(st, t);
        } else {
            self.next(st);
        }
    }
    fn do_ret(&mut self, st: &mut State, r: Option<Val>) -> Res<()> {
        let cur = st.cur;
        let f = st.th[cur].frames.pop().unwrap();
        st.th[cur].sp = f.sp;
        if st.th[cur].frames.is_empty() {
            // thread (or destructor) end
            if cur == 0 {
                return Err(End::Complete);
            }
            if let Some((dt, obj)) = st.th[cur].dtors.pop() {
                let fi = ((dt - FN_BASE) / 16) as u32;
                self.push_frame(st, cur, fi, vec![Val::C(obj)]);
                return Ok(());
            }
            st.th[cur].st = St::Done;
            return self.resched(st);
        }
        let fr = st.th[cur].frames.last().unwrap();
        let inst: &'static Inst = &fr.func.code[fr.pc as usize];
        if let Inst::Call { d, .. } = inst {
            if let Some(v) = r {
                self.set(st, *d, v);
            }
            self.finish_call(st, inst);
            Ok(())
        } else {
            Err(End::Error("return to non-call".into()))
        }
    }
    fn panic_loc(&self, st: &State) -> String {
        let s = self.stack_of(st);
        // the first frame that is not in the standard library
        s.iter().find(|l| !l.contains("/rustc/") && !l.contains("rustlib/src")).cloned().unwrap_or_else(|| s.first().cloned().unwrap_or_default())
    }
    fn panic_msg(&mut self, st: &mut State, args: &[Op]) -> String {
        // look for &str arguments (ptr,len)
        let v: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
        if v.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (&v[0], &v[1]) {
                if *n < 200 {
                    let mut s = String::new();
                    for k in 0..*n {
                        match st.mem.read_c(p + k, 1) {
                            Ok(Some(b)) => s.push(b as u8 as char),
                            _ => return String::new(),
                        }
                    }
                    if s.chars().all(|c| !c.is_control()) {
                        return s;
                    }
                }
            }
        }
        String::new()
    }

    // ---- arithmetic ----------------------------------------------------------
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                let w = ty.bits();
                let (x, y) = (mask(*x, w), mask(*y, w));
                let (sx, sy) = (sext(x, w), sext(y, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                };
                Val::C(r as u64)
            }
            (Val::A(x), Val::A(y)) => {
                let t = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => Ty::Int(8),
                };
                let r: Vec<Val> = (0..x.len()).map(|k| self.icmp(p, &t, &x[k], &y[k])).collect();
                Val::A(r.into())
            }
            (Val::W(_), _) | (_, Val::W(_)) => {
                let f = |v: &Val| match v {
                    Val::W(x) => *x,
                    Val::C(x) => *x as u128,
                    _ => 0,
                };
                let (x, y) = (f(a), f(b));
                let (sx, sy) = (x as i128, y as i128);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                };
                Val::C(r as u64)
            }
            _ => {
                let w = ty.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.icmp_e(p, w, x, y);
                self.v(r, 1)
            }
        }
    }
    fn icmp_e(&mut self, p: Pred, w: u32, x: E, y: E) -> E {
        let (x, y) = match p {
            Pred::Ugt | Pred::Uge | Pred::Ult | Pred::Ule => (self.x.uns(x, w), self.x.uns(y, w)),
            Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle if w == 1 => (self.x.scale(x, -1), self.x.scale(y, -1)),
            _ => (x, y),
        };
        match p {
            Pred::Eq => {
                if w == 1 {
                    let n = self.x.not(y);
                    self.x.bite(x, y, n)
                } else {
                    self.x.eq(x, y)
                }
            }
            Pred::Ne => {
                let e = self.icmp_e(Pred::Eq, w, x, y);
                self.x.not(e)
            }
            Pred::Ugt | Pred::Sgt => self.x.lt(y, x),
            Pred::Uge | Pred::Sge => self.x.le(y, x),
            Pred::Ult | Pred::Slt => self.x.lt(x, y),
            Pred::Ule | Pred::Sle => self.x.le(x, y),
        }
    }
    fn bin(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> Res<Val> {
        use BinOp::*;
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let t = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => unreachable!(),
                };
                let mut r = vec![];
                for k in 0..x.len() {
                    r.push(self.bin(st, op, &t, &x[k], &y[k])?);
                }
                return Ok(Val::A(r.into()));
            }
            if let (FDiv, Some((n1, d1)), Some((n2, d2))) = (op, self.rat(ty, a), self.rat(ty, b)) {
                if self.x.kval(d1) == Some(1) && self.x.kval(d2) == Some(1) && self.x.lo(n2) > 0 {
                    let e = self.x.flt(n1, n2, ty.bits());
                    return Ok(Val::S(e));
                }
            }
            if let (FAdd | FSub | FMul | FDiv, Some((x, y))) = (op, self.fpair(ty, a, b)) {
                let o = match op {
                    FAdd => Fo::Add,
                    FSub => Fo::Sub,
                    FMul => Fo::Mul,
                    _ => Fo::Div,
                };
                let w = ty.bits();
                return Ok(Val::S(self.x.fp(o, w, x, y)));
            }
            let x = self.conc_val(st, a, 64)?;
            let y = self.conc_val(st, b, 64)?;
            let r = if *ty == Ty::F32 {
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                let r = match op {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    FDiv => x / y,
                    _ => x % y,
                };
                r.to_bits() as u64
            } else {
                let (x, y) = (fl(ty, x), fl(ty, y));
                let r = match op {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    FDiv => x / y,
                    _ => x % y,
                };
                lf(ty, r)
            };
            return Ok(Val::C(r));
        }
        let (ua, ub) = (self.unflt(st, a)?, self.unflt(st, b)?);
        let (a, b) = (ua.as_ref().unwrap_or(a), ub.as_ref().unwrap_or(b));
        match (a, b) {
            (Val::C(x), Val::C(y)) if ty.bits() <= 64 => {
                let w = ty.bits();
                let (x, y) = (mask(*x, w), mask(*y, w));
                let r = match op {
                    Add => x.wrapping_add(y),
                    Sub => x.wrapping_sub(y),
                    Mul => x.wrapping_mul(y),
                    UDiv | URem | SDiv | SRem => {
                        if y == 0 {
                            return Err(End::Violation("ub".into(), "div0".into(), "division by zero".into()));
                        }
                        match op {
                            UDiv => x / y,
                            URem => x % y,
                            SDiv => sext(x, w).wrapping_div(sext(y, w)) as u64,
                            _ => sext(x, w).wrapping_rem(sext(y, w)) as u64,
                        }
                    }
                    And => x & y,
                    Or => x | y,
                    Xor => x ^ y,
                    Shl => {
                        if y < w as u64 {
                            x << y
                        } else {
                            0
                        }
                    }
                    LShr => {
                        if y < w as u64 {
                            x >> y
                        } else {
                            0
                        }
                    }
                    AShr => (sext(x, w) >> y.min(63)) as u64,
                    _ => unreachable!(),
                };
                Ok(Val::C(mask(r, w)))
            }
            (Val::A(x), Val::A(y)) => {
                let t = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => unreachable!(),
                };
                let mut r = vec![];
                for k in 0..x.len() {
                    r.push(self.bin(st, op, &t, &x[k], &y[k])?);
                }
                Ok(Val::A(r.into()))
            }
            _ if ty.bits() > 64 => {
                let w = ty.bits();
                let mut f = |v: &Val| -> Res<u128> {
                    Ok(match v {
                        Val::W(x) => *x,
                        Val::C(x) => *x as u128,
                        Val::S(e) => self.conc(st, *e)? as u128,
                        _ => return Err(End::Error("wide op".into())),
                    })
                };
                let (x, y) = (f(a)?, f(b)?);
                let r = match op {
                    Add => x.wrapping_add(y),
                    Sub => x.wrapping_sub(y),
                    Mul => x.wrapping_mul(y),
                    UDiv => x / y,
                    URem => x % y,
                    SDiv => (x as i128).wrapping_div(y as i128) as u128,
                    SRem => (x as i128).wrapping_rem(y as i128) as u128,
                    And => x & y,
                    Or => x | y,
                    Xor => x ^ y,
                    Shl => x << y.min(127),
                    LShr => x >> y.min(127),
                    AShr => ((x as i128) >> y.min(127)) as u128,
                    _ => unreachable!(),
                };
                Ok(Val::W(if w >= 128 { r } else { r & ((1u128 << w) - 1) }))
            }
            _ => {
                let w = ty.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = match op {
                    Add => {
                        let s = self.x.add(x, y);
                        self.x.wrap(s, w)
                    }
                    Sub => {
                        let s = self.x.sub(x, y);
                        self.x.wrap(s, w)
                    }
                    Mul => {
                        // a hash function at work: every value of the key is a path of its own
                        let (x, y) = match (self.x.kval(x), self.x.kval(y)) {
                            (Some(k), None) if k.unsigned_abs() >> 40 != 0 => {
                                let v = self.conc(st, y)?;
                                (x, self.x.k(v))
                            }
                            (None, Some(k)) if k.unsigned_abs() >> 40 != 0 => {
                                let v = self.conc(st, x)?;
                                (self.x.k(v), y)
                            }
                            _ => (x, y),
                        };
                        if let (Some(a), Some(b)) = (self.x.kval(x), self.x.kval(y)) {
                            let p = (a as u64).wrapping_mul(b as u64);
                            return Ok(Val::C(mask(p, w)));
                        }
                        let s = self.x.mul(x, y);
                        self.x.wrap(s, w)
                    }
                    UDiv | URem => {
                        let z = self.x.k(0);
                        let c = self.x.eq(y, z);
                        if self.branch(st, c)? {
                            return Err(End::Violation("ub".into(), "div0".into(), "division by zero".into()));
                        }
                        let ux = self.x.uns(x, w);
                        let uy = self.x.uns(y, w);
                        let r = match self.x.kval(uy) {
                            Some(k) => {
                                if op == UDiv {
                                    self.x.divf(ux, k)
                                } else {
                                    self.x.modf(ux, k)
                                }
                            }
                            None => self.x.udivrem(op, w, ux, uy),
                        };
                        self.x.wrap(r, w)
                    }
                    SDiv | SRem => {
                        let z = self.x.k(0);
                        let c = self.x.eq(y, z);
                        if self.branch(st, c)? {
                            return Err(End::Violation("ub".into(), "div0".into(), "division by zero".into()));
                        }
                        // decide the signs, then divide non-negative values
                        let cn = self.x.lt(x, z);
                        let neg_x = self.branch(st, cn)?;
                        let cn = self.x.lt(y, z);
                        let neg_y = self.branch(st, cn)?;
                        let ax = if neg_x { self.x.scale(x, -1) } else { x };
                        let ay = if neg_y { self.x.scale(y, -1) } else { y };
                        let r = match self.x.kval(ay) {
                            Some(k) => {
                                if op == SDiv {
                                    self.x.divf(ax, k)
                                } else {
                                    self.x.modf(ax, k)
                                }
                            }
                            None => self.x.udivrem(if op == SDiv { UDiv } else { URem }, w, ax, ay),
                        };
                        let flip = if op == SDiv { neg_x != neg_y } else { neg_x };
                        let r = if flip { self.x.scale(r, -1) } else { r };
                        self.x.wrap(r, w)
                    }
                    Xor if w == 64 && !self.cfg.bv && self.x.kval(x).or(self.x.kval(y)).map_or(false, |k| k.unsigned_abs() >> 40 != 0) => {
                        // a hash function at work
                        let (a, b) = (self.conc(st, x)? as u64, self.conc(st, y)? as u64);
                        return Ok(Val::C(a ^ b));
                    }
                    _ => self.x.bit(op, w, x, y),
                };
                Ok(self.v(r, w))
            }
        }
    }
    fn cast(&mut self, st: &mut State, op: CastOp, from: &Ty, to: &Ty, a: &Val) -> Res<Val> {
        use CastOp::*;
        let ua = self.unflt(st, a)?;
        let a = ua.as_ref().unwrap_or(a);
        if let (Val::A(l), Ty::Vec(_, ft)) = (a, from) {
            if op == BitCast {
                // to integer or to another vector
                let fw = ft.bits();
                let tot = fw * l.len() as u32;
                match to {
                    Ty::Vec(m, tt) => {
                        let tw = tt.bits();
                        if l.iter().all(|v| matches!(v, Val::C(_))) && tot <= 128 {
                            let mut acc = 0u128;
                            for (k, v) in l.iter().enumerate() {
                                if let Val::C(c) = v {
                                    acc |= (mask(*c, fw) as u128) << (fw * k as u32);
                                }
                            }
                            let r: Vec<Val> = (0..*m).map(|k| Val::C(mask((acc >> (tw * k)) as u64, tw))).collect();
                            return Ok(Val::A(r.into()));
                        }
                        if tw == fw {
                            return Ok(a.clone());
                        }
                        return Err(End::Error("symbolic vector bitcast".into()));
                    }
                    _ => {
                        if tot <= 64 && l.iter().any(|v| matches!(v, Val::S(_))) {
                            let mut acc = self.x.k(0);
                            for (k, v) in l.iter().enumerate() {
                                let e = self.e(v, fw);
                                let e = self.x.modf(e, 1i128 << fw);
                                let e = self.x.scale(e, 1i128 << (fw as usize * k));
                                acc = self.x.add(acc, e);
                            }
                            let r = self.x.wrap(acc, tot);
                            return Ok(self.v(r, tot));
                        }
                        let mut acc = 0u128;
                        for (k, v) in l.iter().enumerate() {
                            let c = self.conc_val(st, v, fw)?;
                            acc |= (mask(c, fw) as u128) << (fw * k as u32);
                        }
                        return Ok(if tot > 64 { Val::W(acc) } else { Val::C(acc as u64) });
                    }
                }
            }
            let tt = match to {
                Ty::Vec(_, t) => (**t).clone(),
                _ => return Err(End::Error("vector cast".into())),
            };
            let ft = (**ft).clone();
            let l = l.clone();
            let mut r = vec![];
            for v in l.iter() {
                r.push(self.cast(st, op, &ft, &tt, v)?);
            }
            return Ok(Val::A(r.into()));
        }
        if let (BitCast, Ty::Vec(m, tt)) = (op, to) {
            let tw = tt.bits();
            let acc = match a {
                Val::C(c) => *c as u128,
                Val::W(c) => *c,
                Val::S(e) => self.conc(st, *e)? as u64 as u128,
                _ => return Err(End::Error("bitcast".into())),
            };
            let r: Vec<Val> = (0..*m).map(|k| Val::C(mask((acc >> (tw * k)) as u64, tw))).collect();
            return Ok(Val::A(r.into()));
        }
        let (fw, tw) = (from.bits(), to.bits());
        match op {
            Trunc => match a {
                Val::C(c) => Ok(Val::C(mask(*c, tw))),
                Val::W(c) => Ok(if tw > 64 { Val::W(*c & ((1u128 << tw) - 1)) } else { Val::C(mask(*c as u64, tw)) }),
                Val::S(e) => {
                    let r = self.x.wrap(*e, tw);
                    Ok(self.v(r, tw))
                }
                _ => Err(End::Error("trunc".into())),
            },
            ZExt => match a {
                Val::C(c) => Ok(if tw > 64 { Val::W(mask(*c, fw) as u128) } else { Val::C(mask(*c, fw)) }),
                Val::W(c) => Ok(Val::W(*c)),
                Val::S(e) => {
                    if tw > 64 {
                        let u = self.x.uns(*e, fw);
                        let c = self.conc(st, u)?;
                        return Ok(Val::W(c as u128));
                    }
                    let r = self.x.uns(*e, fw);
                    Ok(self.v(r, tw))
                }
                _ => Err(End::Error("zext".into())),
            },
            SExt => match a {
                Val::C(c) => Ok(if tw > 64 { Val::W(sext(*c, fw) as i128 as u128 & if tw >= 128 { u128::MAX } else { (1u128 << tw) - 1 }) } else { Val::C(mask(sext(*c, fw) as u64, tw)) }),
                Val::S(e) => {
                    let r = if fw == 1 { self.x.scale(*e, -1) } else { *e };
                    if tw > 64 {
                        let c = self.conc(st, r)?;
                        return Ok(Val::W(c as u128));
                    }
                    Ok(self.v(r, tw))
                }
                _ => Err(End::Error("sext".into())),
            },
            PtrToInt | IntToPtr | BitCast => match a {
                Val::C(c) => Ok(Val::C(mask(*c, tw))),
                Val::S(e) => {
                    if tw == fw {
                        Ok(a.clone())
                    } else {
                        let u = if op == IntToPtr { self.x.uns(*e, fw) } else { *e };
                        let r = self.x.wrap(u, tw);
                        Ok(self.v(r, tw))
                    }
                }
                _ => Ok(a.clone()),
            },
            FPTrunc | FPExt if self.cfg.bv && matches!(a, Val::S(_)) => {
                let Val::S(e) = a else { unreachable!() };
                let z = self.x.k(0);
                Ok(Val::S(self.x.fp(Fo::Cvt, to.bits(), *e, z)))
            }
            FPToUI | FPToSI if self.cfg.bv && matches!(a, Val::S(_)) => {
                let Val::S(e) = a else { unreachable!() };
                let r = self.to_int(*e, from, op == FPToSI, tw);
                Ok(self.v(r, tw))
            }
            FPTrunc | FPExt => {
                let c = self.conc_val(st, a, 64)?;
                Ok(Val::C(lf(to, fl(from, c))))
            }
            FPToUI => {
                let c = self.conc_val(st, a, 64)?;
                Ok(Val::C(mask(fl(from, c) as u64, tw)))
            }
            FPToSI => {
                let c = self.conc_val(st, a, 64)?;
                Ok(Val::C(mask(fl(from, c) as i64 as u64, tw)))
            }
            UIToFP => {
                if let Val::S(e) = a {
                    let lim = if *to == Ty::F32 { 1i128 << 22 } else { 1i128 << 51 };
                    let e = self.x.uns(*e, fw);
                    if self.x.lo(e) > -lim && self.x.hi(e) < lim {
                        let one = self.x.k(1);
                        return Ok(Val::S(self.x.flt(e, one, to.bits())));
                    }
                    if self.cfg.bv {
                        let z = self.x.k(0);
                        return Ok(Val::S(self.x.fp(Fo::Of, to.bits(), e, z)));
                    }
                }
                let c = self.conc_val(st, a, fw)?;
                let c = mask(c, fw);
                Ok(Val::C(if *to == Ty::F32 { (c as f32).to_bits() as u64 } else { (c as f64).to_bits() }))
            }
            SIToFP => {
                if let Val::S(e) = a {
                    let lim = if *to == Ty::F32 { 1i128 << 22 } else { 1i128 << 51 };
                    let e = *e;
                    if self.x.lo(e) > -lim && self.x.hi(e) < lim {
                        let one = self.x.k(1);
                        return Ok(Val::S(self.x.flt(e, one, to.bits())));
                    }
                    if self.cfg.bv {
                        let z = self.x.k(0);
                        return Ok(Val::S(self.x.fp(Fo::Of, to.bits(), e, z)));
                    }
                }
                let c = self.conc_val(st, a, fw)?;
                let c = sext(c, fw);
                Ok(Val::C(if *to == Ty::F32 { (c as f32).to_bits() as u64 } else { (c as f64).to_bits() }))
            }
        }
    }
    fn to_int(&mut self, e: E, from: &Ty, signed: bool, tw: u32) -> E {
        let z = self.x.k(0);
        let r = self.x.fp(Fo::To(signed, tw), from.bits(), e, z);
        self.x.wrap(r, tw)
    }
    fn clamp_e(&mut self, e: E, lo: i128, hi: i128) -> E {
        let mut r = e;
        if self.x.hi(e) > hi {
            let k = self.x.k(hi);
            r = self.x.min(r, k);
        }
        if self.x.lo(e) < lo {
            let k = self.x.k(lo);
            r = self.x.max(r, k);
        }
        r
    }

    /// bytes written to standard output are kept for the harness to read
    fn written(&mut self, st: &mut State, fd: u64, p: u64, n: u64) -> Res<()> {
        if fd as u32 == 1 {
            let mut l = vec![];
            for k in 0..n {
                let v = self.load(st, p + k, &Ty::Int(8))?;
                l.push(self.conc_val(st, &v, 8)? as u8);
            }
            Rc::make_mut(&mut st.text).extend(l);
        }
        Ok(())
    }

    // ---- externals -----------------------------------------------------------
    /// Some(v): completed with result v; None: the call must be re-executed later or control moved elsewhere
    fn external(&mut self, st: &mut State, xx: X, f: u32, rty: &Ty, a: &[Val], at: &[Ty]) -> Res<Option<Val>> {
        use X::*;
        let done = |v: Val| Ok(Some(v));
        let zero = Val::C(0);
        // element-wise vectors for arithmetic intrinsics
        if let (Ty::Vec(_, t), Some(Val::A(l))) = (rty, a.first()) {
            let n = l.len();
            let mut out = vec![];
            for k in 0..n {
                let args: Vec<Val> = a.iter().map(|v| if let Val::A(l) = v { l[k].clone() } else { v.clone() }).collect();
                let ats: Vec<Ty> = at.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
                match self.external(st, xx, f, t, &args, &ats)? {
                    Some(v) => out.push(v),
                    Option::None => return Err(End::Error("vector intrinsic".into())),
                }
            }
            return done(Val::A(out.into()));
        }
        match xx {
            None => unreachable!(),
            Nop => done(zero),
            Zero => done(zero),
            ObjSize => done(Val::C(u64::MAX)),
            Expect => done(a[0].clone()),
            Memcpy | Memmove => {
                let d = self.conc_val(st, &a[0], 64)?;
                let s = self.conc_val(st, &a[1], 64)?;
                let n = self.conc_val(st, &a[2], 64)?;
                let r = st.mem.copy(d, s, n);
                self.merr(r)?;
                done(Val::C(d))
            }
            Memset => {
                let d = self.conc_val(st, &a[0], 64)?;
                let v = self.conc_val(st, &a[1], 8)?;
                let n = self.conc_val(st, &a[2], 64)?;
                let r = st.mem.fill(d, v as u8, n);
                self.merr(r)?;
                done(Val::C(d))
            }
            Assume => done(zero), // facts from the optimiser: always true
            Abort => Err(End::Violation("abort".into(), self.panic_loc(st), "process abort".into())),
            SAddSat | SSubSat | UAddSat | USubSat => {
                let w = rty.bits();
                let x = self.e(&a[0], w);
                let y = self.e(&a[1], w);
                let (lo, hi, x, y) = if matches!(xx, SAddSat | SSubSat) { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1, x, y) } else { (0, (1i128 << w) - 1, self.x.uns(x, w), self.x.uns(y, w)) };
                let s = if matches!(xx, SAddSat | UAddSat) { self.x.add(x, y) } else { self.x.sub(x, y) };
                let r = self.clamp_e(s, lo, hi);
                let r = self.x.wrap(r, w);
                done(self.v(r, w))
            }
            SAddO | SSubO | SMulO | UAddO | USubO | UMulO => {
                let w = match rty {
                    Ty::Struct(f, _) => f[0].bits(),
                    _ => 64,
                };
                if w > 64 {
                    return Err(End::Error("wide overflow op".into()));
                }
                let x = self.e(&a[0], w);
                let y = self.e(&a[1], w);
                let sg = matches!(xx, SAddO | SSubO | SMulO);
                let (lo, hi, x, y) = if sg { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1, x, y) } else { (0, (1i128 << w) - 1, self.x.uns(x, w), self.x.uns(y, w)) };
                // concrete fast path avoids i128 overflow
                if let (Some(p), Some(q)) = (self.x.kval(x), self.x.kval(y)) {
                    let s = match xx {
                        SAddO | UAddO => p + q,
                        SSubO | USubO => p - q,
                        _ => match p.checked_mul(q) {
                            Some(v) => v,
                            Option::None => {
                                let r = (p as u128).wrapping_mul(q as u128) as u64;
                                return done(Val::A(vec![Val::C(mask(r, w)), Val::C(1)].into()));
                            }
                        },
                    };
                    let o = s < lo || s > hi;
                    return done(Val::A(vec![Val::C(mask(s as u64, w)), Val::C(o as u64)].into()));
                }
                let s = match xx {
                    SAddO | UAddO => self.x.add(x, y),
                    SSubO | USubO => self.x.sub(x, y),
                    _ => self.x.mul(x, y),
                };
                let l = self.x.k(lo);
                let h = self.x.k(hi);
                let o1 = self.x.lt(s, l);
                let o2 = self.x.lt(h, s);
                let o = self.x.or(o1, o2);
                let o = self.simp(st, o);
                if o != F && o != T {
                    // decide overflow now: keeps the result linear
                    if self.branch(st, o)? {
                        let r = self.x.wrap(s, w);
                        let r = self.v(r, w);
                        return done(Val::A(vec![r, Val::C(1)].into()));
                    }
                    // no overflow on this path: the value is the mathematical one
                    let r = if sg { s } else { let s2 = s; self.to_signed_under(s2, w) };
                    return done(Val::A(vec![self.v(r, w), Val::C(0)].into()));
                }
                let r = self.x.wrap(s, w);
                done(Val::A(vec![self.v(r, w), self.v(o, 1)].into()))
            }
            Ctlz | Cttz | Ctpop | Bswap | Bitrev => {
                let w = rty.bits();
                let c = match &a[0] {
                    Val::C(c) => *c,
                    Val::S(e) => {
                        if matches!(xx, Ctpop) {
                            // sum of bits
                            let u = self.x.uns(*e, w);
                            let mut acc = self.x.k(0);
                            for k in 0..w {
                                let b = self.x.divf(u, 1i128 << k);
                                let b = self.x.modf(b, 2);
                                acc = self.x.add(acc, b);
                            }
                            return done(self.v(acc, w));
                        }
                        if matches!(xx, Cttz | Ctlz) {
                            let u = self.x.uns(*e, w);
                            let mut acc = self.x.k(w as i128);
                            for k in 0..w {
                                // cttz: lowest set bit wins -> build from high to low
                                let bit = if xx == Cttz { w - 1 - k } else { k };
                                let b = self.x.divf(u, 1i128 << bit);
                                let b = self.x.modf(b, 2);
                                let v = if xx == Cttz { bit } else { w - 1 - bit };
                                let ke = self.x.k(v as i128);
                                acc = self.x.ite(b, ke, acc);
                            }
                            return done(self.v(acc, w));
                        }
                        if self.cfg.bv {
                            let r = self.x.fp(Fo::Rev(if xx == Bswap { 8 } else { 1 }), w, *e, *e);
                            return done(self.v(r, w));
                        }
                        // one piece at a time
                        let u = self.x.uns(*e, w);
                        let step = if xx == Bswap { 8 } else { 1 };
                        let mut acc = self.x.k(0);
                        let mut k = 0;
                        while k < w {
                            let b = self.x.divf(u, 1i128 << k);
                            let b = self.x.modf(b, 1i128 << step);
                            let b = self.x.scale(b, 1i128 << (w - step - k));
                            acc = self.x.add(acc, b);
                            k += step;
                        }
                        let r = self.x.wrap(acc, w);
                        return done(self.v(r, w));
                    }
                    Val::W(c) => {
                        let r = match xx {
                            Ctlz => c.leading_zeros() - (128 - w),
                            Cttz => c.trailing_zeros().min(w),
                            _ => c.count_ones(),
                        };
                        return done(Val::W(r as u128));
                    }
                    _ => return Err(End::Error("ctlz".into())),
                };
                let c = mask(c, w);
                let r = match xx {
                    Ctlz => c.leading_zeros() as u64 - (64 - w as u64),
                    Cttz => (c.trailing_zeros() as u64).min(w as u64),
                    Ctpop => c.count_ones() as u64,
                    Bswap => c.swap_bytes() >> (64 - w),
                    _ => c.reverse_bits() >> (64 - w),
                };
                done(Val::C(r))
            }
            Fshl | Fshr => {
                let w = rty.bits();
                let s = self.conc_val(st, &a[2], w)? % w as u64;
                let x = a[0].clone();
                let y = a[1].clone();
                if s == 0 {
                    return done(if xx == Fshl { x } else { y });
                }
                let s = if xx == Fshl { s } else { w as u64 - s };
                let l = self.bin(st, BinOp::Shl, rty, &x, &Val::C(s))?;
                let r = self.bin(st, BinOp::LShr, rty, &y, &Val::C(w as u64 - s))?;
                let r = self.bin(st, BinOp::Or, rty, &l, &r)?;
                done(r)
            }
            Smax | Smin | Umax | Umin => {
                let w = rty.bits();
                let p = match xx {
                    Smax => Pred::Sge,
                    Smin => Pred::Sle,
                    Umax => Pred::Uge,
                    _ => Pred::Ule,
                };
                let c = self.icmp(p, rty, &a[0], &a[1]);
                match c {
                    Val::C(c) => done(if c & 1 != 0 { a[0].clone() } else { a[1].clone() }),
                    Val::S(c) => {
                        let c = self.simp(st, c);
                        let x = self.e(&a[0], w);
                        let y = self.e(&a[1], w);
                        let r = self.x.ite(c, x, y);
                        done(self.v(r, w))
                    }
                    _ => unreachable!(),
                }
            }
            Scmp | Ucmp => {
                let w = rty.bits();
                let ty = &at[0];
                let (p, q) = if xx == Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let c1 = self.icmp(p, ty, &a[0], &a[1]);
                let c2 = self.icmp(q, ty, &a[0], &a[1]);
                let c1 = self.e(&c1, 1);
                let c2 = self.e(&c2, 1);
                let c1 = self.simp(st, c1);
                let c2 = self.simp(st, c2);
                let (m1, z, o) = (self.x.k(-1), self.x.k(0), self.x.k(1));
                let t = self.x.ite(c2, o, z);
                let r = self.x.ite(c1, m1, t);
                done(self.v(r, w))
            }
            Abs => {
                let w = rty.bits();
                let x = self.e(&a[0], w);
                let n = self.x.scale(x, -1);
                let n = self.x.wrap(n, w);
                let z = self.x.k(0);
                let c = self.x.lt(x, z);
                let r = self.x.ite(c, n, x);
                done(self.v(r, w))
            }
            Tls => {
                let p = self.conc_val(st, &a[0], 64)?;
                done(Val::C(p - TLS_MARK + st.th[st.cur].tls))
            }
            VecRedAdd | VecRedOr | VecRedAnd | VecRedUmax => {
                if let Val::A(l) = &a[0] {
                    let l = l.clone();
                    let mut acc = l[0].clone();
                    for k in 1..l.len() {
                        acc = match xx {
                            VecRedAdd => self.bin(st, BinOp::Add, rty, &acc, &l[k])?,
                            VecRedOr => self.bin(st, BinOp::Or, rty, &acc, &l[k])?,
                            VecRedAnd => self.bin(st, BinOp::And, rty, &acc, &l[k])?,
                            _ => self.external(st, Umax, f, rty, &[acc.clone(), l[k].clone()], &[rty.clone(), rty.clone()])?.unwrap(),
                        };
                    }
                    done(acc)
                } else {
                    Err(End::Error("vector.reduce".into()))
                }
            }
            LoadRel => {
                let p = self.conc_val(st, &a[0], 64)?;
                let o = self.conc_val(st, &a[1], 64)?;
                let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.conc_val(st, &v, 32)?;
                done(Val::C(p.wrapping_add(sext(v, 32) as u64)))
            }
            FToI(signed) => {
                let from = at[0].clone();
                let tw = rty.bits();
                if let (true, Val::S(e)) = (self.cfg.bv, &a[0]) {
                    let r = self.to_int(*e, &from, signed, tw);
                    return done(self.v(r, tw));
                }
                let c = self.conc_val(st, &a[0], 64)?;
                let z = fp_eval(Fo::To(signed, tw), from.bits(), c as i64 as i128, 0);
                done(Val::C(mask(z as u64, tw)))
            }
            FAbs => {
                let c = self.conc_val(st, &a[0], 64)?;
                done(Val::C(lf(rty, fl(rty, c).abs())))
            }
            FUn(k) => {
                let c = self.conc_val(st, &a[0], 64)?;
                let v = fl(rty, c);
                let r = match k {
                    0 => v.floor(),
                    1 => v.ceil(),
                    2 => v.trunc(),
                    3 => v.round(),
                    4 => v.round_ties_even(),
                    _ => v.sqrt(),
                };
                done(Val::C(lf(rty, r)))
            }
            FMin | FMax => {
                let x = self.conc_val(st, &a[0], 64)?;
                let y = self.conc_val(st, &a[1], 64)?;
                let (x, y) = (fl(rty, x), fl(rty, y));
                done(Val::C(lf(rty, if xx == FMin { x.min(y) } else { x.max(y) })))
            }
            Malloc => {
                let n = self.conc_val(st, &a[0], 64)?;
                let p = self.malloc(st, n, 16)?;
                done(Val::C(p))
            }
            Calloc => {
                let n = self.conc_val(st, &a[0], 64)?;
                let k = self.conc_val(st, &a[1], 64)?;
                let p = self.malloc(st, n * k, 16)?;
                done(Val::C(p))
            }
            Realloc => {
                let o = self.conc_val(st, &a[0], 64)?;
                let n = self.conc_val(st, &a[1], 64)?;
                let p = self.malloc(st, n, 16)?;
                if o != 0 {
                    let r = st.mem.read_c(o - 16, 8);
                    let old = self.merr(r)?.unwrap_or(0);
                    let r = st.mem.copy(p, o, old.min(n));
                    self.merr(r)?;
                }
                done(Val::C(p))
            }
            Free => done(zero),
            PosixMemalign => {
                let out = self.conc_val(st, &a[0], 64)?;
                let al = self.conc_val(st, &a[1], 64)?;
                let n = self.conc_val(st, &a[2], 64)?;
                let p = self.malloc(st, n, al)?;
                self.store(st, out, &Ty::Int(64), &Val::C(p))?;
                done(zero)
            }
            Bcmp => {
                let p = self.conc_val(st, &a[0], 64)?;
                let q = self.conc_val(st, &a[1], 64)?;
                let n = self.conc_val(st, &a[2], 64)?;
                for k in 0..n {
                    let x = self.load(st, p + k, &Ty::Int(8))?;
                    let y = self.load(st, q + k, &Ty::Int(8))?;
                    let c = self.icmp(Pred::Eq, &Ty::Int(8), &x, &y);
                    let eq = match c {
                        Val::C(c) => c & 1 != 0,
                        Val::S(e) => self.branch(st, e)?,
                        _ => unreachable!(),
                    };
                    if !eq {
                        let c = self.icmp(Pred::Ult, &Ty::Int(8), &x, &y);
                        let lt = match c {
                            Val::C(c) => c & 1 != 0,
                            Val::S(e) => self.branch(st, e)?,
                            _ => unreachable!(),
                        };
                        return done(Val::C(if lt { 0xffff_ffff } else { 1 }));
                    }
                }
                done(zero)
            }
            Strlen => {
                let p = self.conc_val(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let x = self.load(st, p + n, &Ty::Int(8))?;
                    if self.conc_val(st, &x, 8)? == 0 {
                        break;
                    }
                    n += 1;
                }
                done(Val::C(n))
            }
            PthreadCreate => {
                let out = self.conc_val(st, &a[0], 64)?;
                let fp = self.conc_val(st, &a[2], 64)?;
                let arg = a[3].clone();
                if st.th.len() > 32 {
                    return Err(End::Error("too many threads".into()));
                }
                let t = st.new_thread(self.m);
                let fi = ((fp - FN_BASE) / 16) as u32;
                self.push_frame(st, t, fi, vec![arg]);
                self.store(st, out, &Ty::Int(64), &Val::C(t as u64 + 1))?;
                done(zero)
            }
            PthreadJoin => {
                let t = self.conc_val(st, &a[0], 64)? as usize - 1;
                if st.th[t].st == St::Done {
                    return done(zero);
                }
                let c = st.cur;
                st.th[c].st = St::Join(t as u32);
                self.resched(st)?;
                Ok(Option::None)
            }
            PthreadSelf => done(Val::C(st.cur as u64 + 1)),
            KeyCreate => {
                let out = self.conc_val(st, &a[0], 64)?;
                st.keys += 1;
                let k = st.keys;
                self.store(st, out, &Ty::Int(32), &Val::C(k as u64))?;
                done(zero)
            }
            SetSpecific | ThrLocalNoop => done(zero),
            GetSpecific => done(zero),
            Syscall => {
                let n = self.conc_val(st, &a[0], 64)?;
                if n == 318 {
                    let p = self.conc_val(st, &a[1], 64)?;
                    let k = self.conc_val(st, &a[2], 64)?;
                    for i in 0..k {
                        self.store(st, p + i, &Ty::Int(8), &Val::C(0))?;
                    }
                    return done(Val::C(k));
                }
                if n != 202 {
                    return Err(End::Error(format!("syscall {}", n)));
                }
                let addr = self.conc_val(st, &a[1], 64)?;
                let opc = self.conc_val(st, &a[2], 64)? & 0x7f;
                match opc {
                    0 | 9 => {
                        let timed = match a.get(4) {
                            Some(v) => self.conc_val(st, v, 64)? != 0,
                            Option::None => false,
                        };
                        let c = st.cur;
                        if st.th[c].phase == 1 {
                            // woken up
                            st.th[c].phase = 0;
                            let to = std::mem::replace(&mut st.th[c].timed_out, false);
                            if to {
                                let e = st.th[c].tls - 0;
                                let _ = e;
                                let er = self.errno(st);
                                self.store(st, er, &Ty::Int(32), &Val::C(110))?;
                                return done(Val::C(u64::MAX));
                            }
                            return done(zero);
                        }
                        let v = self.load(st, addr, &Ty::Int(32))?;
                        let v = self.conc_val(st, &v, 32)?;
                        let exp = self.conc_val(st, &a[3], 32)?;
                        if mask(v, 32) != mask(exp, 32) {
                            let er = self.errno(st);
                            self.store(st, er, &Ty::Int(32), &Val::C(11))?;
                            return done(Val::C(u64::MAX));
                        }
                        st.th[c].phase = 1;
                        st.th[c].timed_out = false;
                        st.th[c].st = St::Futex(addr, timed);
                        self.resched(st)?;
                        Ok(Option::None)
                    }
                    1 | 10 => {
                        let n = self.conc_val(st, &a[3], 32)? as i32;
                        let w: Vec<usize> = (0..st.th.len()).filter(|t| matches!(st.th[*t].st, St::Futex(ad, _) if ad == addr)).collect();
                        let k = w.len().min(n.max(0) as usize);
                        // wake in FIFO (thread id) order
                        for t in w.into_iter().take(k) {
                            st.th[t].st = St::Run;
                            st.th[t].timed_out = false;
                        }
                        done(Val::C(k as u64))
                    }
                    _ => Err(End::Error(format!("futex op {}", opc))),
                }
            }
            Getrandom => {
                // any numbers are possible: these are the ones vprt gives, too
                let p = self.conc_val(st, &a[0], 64)?;
                let k = self.conc_val(st, &a[1], 64)?;
                for i in 0..k {
                    self.store(st, p + i, &Ty::Int(8), &Val::C(0))?;
                }
                done(Val::C(k))
            }
            Sysconf => {
                let n = self.conc_val(st, &a[0], 32)?;
                done(Val::C(match n {
                    30 => 4096,
                    84 | 83 => 2,
                    _ => 4096,
                }))
            }
            // a sleeping thread goes on at any time after its delay has passed
            Sleep(k) => {
                let c = st.cur;
                if st.th[c].phase == 2 {
                    st.th[c].phase = 0;
                    let p = self.conc_val(st, &a[k as usize], 64)?;
                    let s = self.load(st, p, &Ty::Int(64))?;
                    let s = self.conc_val(st, &s, 64)?;
                    let n = self.load(st, p + 8, &Ty::Int(64))?;
                    let n = self.conc_val(st, &n, 64)?;
                    st.late += s.saturating_mul(1000).saturating_add(n.div_ceil(1_000_000)).min(1 << 50);
                    self.granted(st);
                    return done(zero);
                }
                st.th[c].phase = 2;
                self.granted(st);
                self.resched(st)?;
                Ok(Option::None)
            }
            // the harness may observe the end of the process
            Exit => match self.m.funcs.iter().position(|f| f.name == "vp_exit") {
                Some(i) if self.m.body(i as u32).is_some() => {
                    let c = st.cur;
                    self.push_frame(st, c, i as u32, vec![a[0].clone()]);
                    Ok(Option::None)
                }
                _ => Err(End::Violation("abort".into(), self.panic_loc(st), "process exit".into())),
            },
            Pause => {
                let c = st.cur;
                st.th[c].st = St::Paused;
                self.resched(st)?;
                Ok(Option::None)
            }
            VpDone => Err(End::Complete),
            SchedYield | VpYield => {
                let c = st.cur;
                if st.th[c].phase == 2 {
                    st.th[c].phase = 0;
                    st.th[c].offered = false;
                    return done(zero);
                }
                st.th[c].phase = 2;
                self.force_yield(st)?;
                st.th[c].phase = 0;
                done(zero)
            }
            Clock => {
                let p = self.conc_val(st, &a[1], 64)?;
                let t = st.clock + 1;
                // parameter 60: between any of the first so many readings of the clock 1000 s may pass
                let n = *self.cfg.params.get(&60).unwrap_or(&0) as u64;
                if t <= n {
                    let e = self.x.var(9000 + t as u32, 0, 1);
                    let z = self.x.eq0(e);
                    if !self.branch(st, z)? {
                        st.late += 1_000_000;
                    }
                }
                st.clock = t;
                let t = t + st.late;
                self.store(st, p, &Ty::Int(64), &Val::C(1000 + t / 1000))?;
                self.store(st, p + 8, &Ty::Int(64), &Val::C(t % 1000 * 1_000_000))?;
                done(zero)
            }
            Write => {
                let fd = self.conc_val(st, &a[0], 32)?;
                let p = self.conc_val(st, &a[1], 64)?;
                let n = self.conc_val(st, &a[2], 64)?;
                self.written(st, fd, p, n)?;
                done(Val::C(n))
            }
            Writev => {
                // total length
                let fd = self.conc_val(st, &a[0], 32)?;
                let p = self.conc_val(st, &a[1], 64)?;
                let n = self.conc_val(st, &a[2], 32)?;
                let mut tot = 0;
                for k in 0..n {
                    let b = self.load(st, p + 16 * k, &Ty::Int(64))?;
                    let b = self.conc_val(st, &b, 64)?;
                    let v = self.load(st, p + 16 * k + 8, &Ty::Int(64))?;
                    let v = self.conc_val(st, &v, 64)?;
                    self.written(st, fd, b, v)?;
                    tot += v;
                }
                done(Val::C(tot))
            }
            VpStdout => {
                let i = self.conc_val(st, &a[0], 64)? as usize;
                done(Val::C(st.text.get(i).map_or(u64::MAX, |b| *b as u64)))
            }
            Errno => {
                let e = self.errno(st);
                done(Val::C(e))
            }
            AtExit => {
                let fp = self.conc_val(st, &a[0], 64)?;
                let o = self.conc_val(st, &a[1], 64)?;
                let c = st.cur;
                st.th[c].dtors.push((fp, o));
                done(zero)
            }
            Gettid => done(Val::C(st.cur as u64 + 100)),
            // ---- harness interface
            VpSym => {
                let id = self.conc_val(st, &a[0], 32)? as u32;
                let lo = sext(self.conc_val(st, &a[1], 64)?, 64) as i128;
                let hi = sext(self.conc_val(st, &a[2], 64)?, 64) as i128;
                let e = self.x.var(id, lo, hi);
                done(self.v(e, 64))
            }
            VpParam => {
                let id = self.conc_val(st, &a[0], 32)? as u32;
                done(Val::C(*self.cfg.params.get(&id).unwrap_or(&0) as u64))
            }
            VpAssume => {
                let c = self.e(&a[0], 1);
                self.assume(st, c)?;
                done(zero)
            }
            VpAssert => {
                let c = self.e(&a[0], 1);
                let id = self.conc_val(st, &a[1], 32)? as u32;
                self.assert(st, c, id)?;
                done(zero)
            }
            VpReach => {
                let id = self.conc_val(st, &a[0], 32)? as u32;
                *self.stats.reach.entry(id).or_insert(0) += 1;
                done(zero)
            }
            VpOut => {
                let id = self.conc_val(st, &a[0], 32)? as u32;
                let e = self.e(&a[1], 64);
                let prev = st.outs.take();
                st.outs = Some(Rc::new(Cons { v: (id, e), prev }));
                done(zero)
            }
            VpMax | VpMin => {
                let x = self.e(&a[0], 64);
                let y = self.e(&a[1], 64);
                let r = if xx == VpMax { self.x.max(x, y) } else { self.x.min(x, y) };
                done(self.v(r, 64))
            }
            VpIte => {
                let c = self.e(&a[0], 1);
                let c = self.simp(st, c);
                let x = self.e(&a[1], 64);
                let y = self.e(&a[2], 64);
                let r = self.x.ite(c, x, y);
                done(self.v(r, 64))
            }
            VpAnd | VpOr => {
                let x = self.e(&a[0], 1);
                let y = self.e(&a[1], 1);
                let r = if xx == VpAnd { self.x.and(x, y) } else { self.x.or(x, y) };
                done(self.v(r, 1))
            }
            VpConc => {
                let c = self.conc_val(st, &a[0], 64)?;
                done(Val::C(c))
            }
            VpIsSym => done(Val::C(matches!(a[0], Val::S(_)) as u64)),
            VpTid => done(Val::C(st.cur as u64)),
            VpAcquire => {
                let l = self.conc_val(st, &a[0], 64)?;
                let mode = self.conc_val(st, &a[1], 32)? as u32;
                self.sched_point(st, 1 << mode)?;
                if self.lock_free(st, l, mode) {
                    let v = st.mem.read_c(l, 8).ok().flatten().unwrap_or(0) as i64;
                    let n = if mode == 1 { v + 1 } else { -1 };
                    let r = st.mem.write_c(l, &n.to_le_bytes());
                    self.merr(r)?;
                    self.granted(st);
                    done(zero)
                } else {
                    let c = st.cur;
                    st.th[c].st = St::Lock(l, mode);
                    st.th[c].offered = true;
                    self.resched(st)?;
                    Ok(Option::None)
                }
            }
            VpTryAcquire => {
                let l = self.conc_val(st, &a[0], 64)?;
                let mode = self.conc_val(st, &a[1], 32)? as u32;
                self.sched_point(st, 1 << mode)?;
                let ok = self.lock_free(st, l, mode);
                if ok {
                    let v = st.mem.read_c(l, 8).ok().flatten().unwrap_or(0) as i64;
                    let n = if mode == 1 { v + 1 } else { -1 };
                    let r = st.mem.write_c(l, &n.to_le_bytes());
                    self.merr(r)?;
                }
                self.granted(st);
                done(Val::C(ok as u64))
            }
            VpRelease => {
                let l = self.conc_val(st, &a[0], 64)?;
                let mode = self.conc_val(st, &a[1], 32)? as u32;
                let v = st.mem.read_c(l, 8).ok().flatten().unwrap_or(0) as i64;
                let n = if mode == 1 { v - 1 } else { 0 };
                let r = st.mem.write_c(l, &n.to_le_bytes());
                self.merr(r)?;
                self.granted(st);
                done(zero)
            }
            VpCvWait => {
                let cv = self.conc_val(st, &a[0], 64)?;
                let mx = self.conc_val(st, &a[1], 64)?;
                let timed = self.conc_val(st, &a[2], 32)? != 0;
                let c = st.cur;
                if st.th[c].phase == 0 {
                    let r = st.mem.write_c(mx, &0i64.to_le_bytes());
                    self.merr(r)?;
                    self.granted(st);
                    st.th[c].phase = 3;
                    st.th[c].timed_out = false;
                    st.th[c].st = St::Cv(cv, mx, timed);
                    self.resched(st)?;
                    return Ok(Option::None);
                }
                // notified (or timed out): re-acquire
                if self.lock_free(st, mx, 0) {
                    let r = st.mem.write_c(mx, &(-1i64).to_le_bytes());
                    self.merr(r)?;
                    self.granted(st);
                    st.th[c].phase = 0;
                    let to = std::mem::replace(&mut st.th[c].timed_out, false);
                    done(Val::C(to as u64))
                } else {
                    st.th[c].st = St::Lock(mx, 0);
                    self.resched(st)?;
                    Ok(Option::None)
                }
            }
            VpCvNotify => {
                let cv = self.conc_val(st, &a[0], 64)?;
                let all = self.conc_val(st, &a[1], 32)? != 0;
                let w: Vec<usize> = (0..st.th.len()).filter(|t| matches!(st.th[*t].st, St::Cv(c, _, _) if c == cv)).collect();
                let n = w.len();
                if !all && n > 1 {
                    // any waiter may be woken: fork over the choice
                    let t = self.pick(st, &w)?;
                    if let St::Cv(_, m, _) = st.th[t].st {
                        st.th[t].st = St::Lock(m, 0);
                    }
                    self.granted(st);
                    return done(Val::C(1));
                }
                for t in w {
                    if let St::Cv(_, m, _) = st.th[t].st {
                        st.th[t].st = St::Lock(m, 0);
                    }
                }
                self.granted(st);
                done(Val::C(n as u64))
            }
            Unsup => Err(End::Error(format!("external function {}", self.m.funcs[f as usize].name))),
        }
    }
    fn to_signed_under(&mut self, s: E, w: u32) -> E {
        // s in [0, 2^w) on this path
        let m = 1i128 << w;
        if self.x.hi(s) < m / 2 && self.x.lo(s) >= -(m / 2) {
            return s;
        }
        self.x.wrap(s, w)
    }
    /// fork over a set of threads without switching to them
    fn pick(&mut self, st: &mut State, w: &[usize]) -> Res<usize> {
        if let Some(ch) = st.next_replay() {
            if let Choice::S(t) = ch {
                st.push_choice(ch);
                self.after_replay(st)?;
                return Ok(t as usize);
            }
            return Err(End::Error("replay divergence at pick".into()));
        }
        for &t in w[1..].iter().rev() {
            // alternative: perform the notification in the clone by re-executing with a forced replay
            let mut alt = st.clone();
            alt.replay = Some((Rc::new(vec![Choice::S(t as u32)]), 0));
            self.stats.sched_forks += 1;
            self.stack.push(alt);
        }
        st.push_choice(Choice::S(w[0] as u32));
        Ok(w[0])
    }
    fn errno(&mut self, st: &mut State) -> u64 {
        // errno lives just after the thread's TLS block
        st.th[st.cur].tls + self.m.tls.len() as u64 + 16
    }
    fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> Res<u64> {
        if n > (1 << 26) {
            return Err(End::Error(format!("allocation of {} bytes", n)));
        }
        let al = al.max(16);
        let p = st.mem.alloc(n + al, al);
        let u = p + al;
        let r = st.mem.write_c(u - 16, &n.to_le_bytes());
        self.merr(r)?;
        Ok(u)
    }
}

fn short(n: &str) -> String {
    // last identifier of a v0-mangled name
    let b = n.as_bytes();
    let mut i = 0;
    let mut last = String::new();
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 2 && j + k <= b.len() {
                last = n[j..j + k].to_string();
                i = j + k;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    last
}

fn fl(t: &Ty, v: u64) -> f64 {
    if *t == Ty::F32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}
fn lf(t: &Ty, v: f64) -> u64 {
    if *t == Ty::F32 {
        (v as f32).to_bits() as u64
    } else {
        v.to_bits()
    }
}
pub fn cval(c: &CVal) -> Val {
    match c {
        CVal::I(v) => Val::C(*v),
        CVal::W(v) => Val::W(*v),
        CVal::Agg(l) => Val::A(l.iter().map(cval).collect::<Vec<_>>().into()),
    }
}
fn insert(a: &Val, v: &Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    match a {
        Val::A(l) => {
            let mut l = l.to_vec();
            l[path[0] as usize] = insert(&l[path[0] as usize], v, &path[1..]);
            Val::A(l.into())
        }
        _ => panic!("insertvalue"),
    }
}
