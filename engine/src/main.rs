mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
fn jassign(a: &BTreeMap<u32, i128>) -> String {
    let v: Vec<String> = a.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    format!("{{{}}}", v.join(","))
}
fn jlist<T: std::fmt::Display>(a: &[T]) -> String {
    let v: Vec<String> = a.iter().map(|v| v.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn jouts(a: &[(u32, i128)]) -> String {
    let v: Vec<String> = a.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    let mut ll = String::new();
    let mut cfg = Cfg {
        entry: String::new(),
        params: BTreeMap::new(),
        jobs: 8,
        time: 600.0,
        preempt: 0,
        max_steps: 20_000_000,
        bv: false,
        max_viol: 1,
        samples: 10,
        seed: 1,
        sched_mask: 1 | 2 | 4 | 8,
        qtimeout: 20000,
        verbose: false,
        max_paths: 0,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("missing argument");
        match a.as_str() {
            "--ll" => ll = nx(),
            "--entry" => cfg.entry = nx(),
            "--param" => {
                let s = nx();
                let (k, v) = s.split_once('=').unwrap();
                cfg.params.insert(k.parse().unwrap(), v.parse().unwrap());
            }
            "--jobs" => cfg.jobs = nx().parse().unwrap(),
            "--time" => cfg.time = nx().parse().unwrap(),
            "--preempt" => cfg.preempt = nx().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--bv" => cfg.bv = true,
            "--max-viol" => cfg.max_viol = nx().parse().unwrap(),
            "--samples" => cfg.samples = nx().parse().unwrap(),
            "--seed" => cfg.seed = nx().parse().unwrap(),
            "--sched" => cfg.sched_mask = nx().parse().unwrap(),
            "--qtimeout" => cfg.qtimeout = nx().parse().unwrap(),
            "--max-paths" => cfg.max_paths = nx().parse().unwrap(),
            "-v" => cfg.verbose = true,
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let m: &'static ir::Module = Box::leak(Box::new(parse::parse_module(text)));
    let parse_s = t0.elapsed().as_secs_f64();
    let cfg: &'static Cfg = Box::leak(Box::new(cfg));
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        viol: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        errors: Mutex::new(BTreeMap::new()),
        stats: Mutex::new(Stats::default()),
        fns: Mutex::new(BTreeSet::new()),
        npaths: AtomicUsize::new(0),
    }));
    let start = Instant::now();
    let hs: Vec<_> = (0..cfg.jobs)
        .map(|_| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let r = std::panic::catch_unwind(|| {
                        let mut w = Worker::new(m, cfg, sh, start);
                        w.work();
                    });
                    if r.is_err() {
                        *sh.errors.lock().unwrap().entry("engine panic".into()).or_insert(0) += 1;
                        sh.stop.store(true, Ordering::Relaxed);
                        sh.cv.notify_all();
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let wall = start.elapsed().as_secs_f64();
    let s = sh.stats.lock().unwrap().clone();
    let viol = sh.viol.lock().unwrap().clone();
    let mut errors = sh.errors.lock().unwrap().clone();
    errors.retain(|k, _| !k.starts_with("stopped"));
    let fns = sh.fns.lock().unwrap().clone();
    let timed = sh.timed_out.load(Ordering::Relaxed);
    let mut o = String::new();
    o += &format!("{{\"entry\":{},\"complete\":{},\"timed_out\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},", esc(&cfg.entry), !timed && errors.is_empty(), timed, wall, parse_s);
    o += &format!("\"params\":{},", { let v: Vec<String> = cfg.params.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect(); format!("{{{}}}", v.join(",")) });
    o += &format!(
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"sched_forks\":{},\"steps\":{},\"asserts\":{},\"asserts_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\"max_depth\":{},\"max_threads\":{},\"max_steps\":{},\"concretised\":{},\"implied\":{},",
        s.paths, s.infeasible, s.forks, s.sched_forks, s.steps, s.asserts, s.asserts_trivial, s.queries, s.sat, s.unsat, s.unknown, s.solver_us as f64 / 1e6, s.max_query_us as f64 / 1e6, s.max_depth, s.max_threads, s.max_steps, s.concretised, s.implied
    );
    let r: Vec<String> = s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o += &format!("\"reach\":{{{}}},", r.join(","));
    let r: Vec<String> = s.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o += &format!("\"assert_ids\":{{{}}},", r.join(","));
    let v: Vec<String> = viol
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
            format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"assign\":{},\"sched\":{},\"outs\":{},\"stack\":[{}]}}", esc(&v.kind), esc(&v.id), esc(&v.msg), jassign(&v.assign), jlist(&v.sched), jouts(&v.outs), st.join(","))
        })
        .collect();
    o += &format!("\"violations\":[{}],", v.join(","));
    let v: Vec<String> = sh.samples.lock().unwrap().iter().map(|v| format!("{{\"assign\":{},\"sched\":{},\"outs\":{}}}", jassign(&v.assign), jlist(&v.sched), jouts(&v.outs))).collect();
    o += &format!("\"samples\":[{}],", v.join(","));
    let v: Vec<String> = errors.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    o += &format!("\"errors\":{{{}}},", v.join(","));
    let v: Vec<String> = fns.iter().filter(|(f, _)| !f.contains("/rustc/") && !f.starts_with("library/") && !f.contains("rustlib/src")).map(|(f, n)| esc(&format!("{}::{}", f, n))).collect();
    o += &format!("\"functions\":[{}],\"z3\":{}}}", v.join(","), esc(&z3::version()));
    println!("{}", o);
    // leave without running destructors (the solver contexts are leaked)
    std::process::exit(0);
}
