#!/usr/bin/env python3
"""check.py PROPERTY   decides one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --build       builds everything
check.py --replay FILE runs one replay file against the real code
"""
import json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vpdriver import build as B
from vpdriver import props as PR

VERIF = B.VERIF
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def write_replay(path, entry, params, assign, sched, header):
    with open(path, "w") as f:
        for h in header:
            f.write("# %s\n" % h)
        f.write("entry %s\n" % entry)
        for k, v in sorted(params.items(), key=lambda x: int(x[0])):
            f.write("param %s %s\n" % (k, v))
        for k, v in sorted(assign.items(), key=lambda x: int(x[0])):
            f.write("assign %s %s\n" % (k, v))
        f.write("sched %s\n" % " ".join(str(t) for t in sched))


def native(rt, so, replay, timeout=40):
    """runs the real (compiled) code on a replay file: (kind, detail, outs)"""
    try:
        p = subprocess.run([rt, so, replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", []
    outs = [[int(m.group(1)), int(m.group(2))] for m in re.finditer(r"^VP-OUT (\d+) (-?\d+)$", p.stdout, re.M)]
    if p.returncode == 0 and "VP-DONE" in p.stdout:
        return "ok", "", outs
    m = re.search(r"^VP-ASSERT-FAIL (\d+)", p.stdout, re.M)
    if p.returncode == 101 and m:
        return "assert", m.group(1), outs
    if p.returncode == 77:
        return "assume", "", outs
    if p.returncode == 103:
        return "deadlock", "", outs
    if p.returncode == 104:
        return "nonterm", "", outs
    if p.returncode == 105:
        return "diverged", "", outs
    if p.returncode < 0:
        m = re.search(r"panicked at (.*)", p.stderr)
        return "panic" if m else "signal", (m.group(1) if m else str(-p.returncode)) + " " + p.stderr[-300:].replace("\n", " "), outs
    return "error", "exit %s %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-300:]), outs


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop:
                out.append(k)
    return out


def match_known(v, cfg, kn):
    """a violation is a listed finding only if it is the same assertion/panic site in the same configuration"""
    for k in kn:
        if k.get("kind") not in (None, v["kind"]) or k.get("id") not in (None, v["id"]):
            continue
        if k.get("entry") not in (None, cfg["entry"]) or k.get("harness") not in (None, cfg["harness"]):
            continue
        if any(str(cfg["params"].get(int(a), 0)) != str(b) for a, b in k.get("params", {}).items()):
            continue
        if k.get("msg") and k["msg"] not in v["msg"]:
            continue
        if k.get("stack") and not any(k["stack"] in s for s in v["stack"]):
            continue
        return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop == "--build":
        B.build_engine()
        for n, c in PR.HARNESSES.items():
            B.build_harness(n, c)
        return 0
    with B.Lock():
        exe, rt = B.build_engine()
        if prop == "--replay":
            f = sys.argv[2]
            h = re.search(r"^# harness (\S+)", open(f).read(), re.M).group(1)
            ll, so = B.build_harness(h, PR.HARNESSES[h])
            r = native(rt, so, f)
            log("REPLAY", r[0], r[1], r[2])
            return 0 if r[0] == "ok" else 1
        spec = PR.PROPS[prop]
        cfgs = spec["configs"](tier, seed)
        libs = {}
        for h in sorted(set(c["harness"] for c in cfgs)):
            libs[h] = B.build_harness(h, PR.HARNESSES[h])
    kn = known_findings(prop)
    known_hits = {}
    outdir = os.path.join(VERIF, ".build", "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = dict(paths=0, infeasible=0, forks=0, sched_forks=0, steps=0, asserts=0, asserts_trivial=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, concretised=0)
    functions, asserts, reach = set(), {}, {}
    samples, runs, incomplete, errors = [], [], [], []
    validated = 0
    viols, unrepro, vacuous = [], [], []
    cpus = os.cpu_count() or 4
    jobs = 1
    workers = max(1, cpus)
    budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)

    def explore(i, c):
        left = budget - (time.time() - T0)
        if left < 3:
            return None
        ll, so = libs[c["harness"]]
        cmd = [exe, "--ll", ll, "--entry", c["entry"], "--seed", str(seed), "--time", "%.0f" % min(left, c.get("time", 150 if tier == "quick" else 900)), "--jobs", str(c.get("jobs", jobs)),
               "--preempt", str(c.get("preempt", 0)), "--sched", str(c.get("sched", 7)), "--max-viol", "3", "--samples", str(c.get("samples", 3))]
        for k, v in c["params"].items():
            cmd += ["--param", "%s=%s" % (k, v)]
        cmd += c.get("opts", [])
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    # several configurations at once, reported in order
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(workers)
    futs = [pool.submit(explore, i, c) for i, c in enumerate(cfgs)]
    for i, c in enumerate(cfgs):
        ll, so = libs[c["harness"]]
        p = futs[i].result()
        if p is None:
            incomplete.append(dict(entry=c["entry"], params=c["params"], reason="time budget"))
            continue
        try:
            r = json.loads(p.stdout)
        except Exception:
            errors.append("%s %s: engine exited %s: %s" % (c["entry"], c["params"], p.returncode, (p.stdout + p.stderr)[-400:]))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        functions.update(r["functions"])
        for k, v in r["assert_ids"].items():
            asserts[k] = asserts.get(k, 0) + v
        for k, v in r["reach"].items():
            reach[k] = reach.get(k, 0) + v
        name = "%s %s" % (c["entry"], " ".join("%s=%s" % kv for kv in c["params"].items()))
        rec = dict(entry=c["entry"], harness=c["harness"], params={str(k): v for k, v in c["params"].items()}, preempt=c.get("preempt", 0), paths=r["paths"], complete=r["complete"], wall_s=r["wall_s"], queries=r["queries"], solver_s=r["solver_s"], threads=r["max_threads"])
        runs.append(rec)
        bad = False
        for v in r["violations"]:
            k = match_known(v, c, kn)
            if k:
                known_hits[k["what"]] = k
                continue
            f = os.path.join(outdir, "%s-%d-%d.replay" % (prop, i, len(viols) + len(unrepro)))
            write_replay(f, c["entry"], c["params"], v["assign"], v["sched"], ["property " + prop, "harness " + c["harness"], "violated: %s %s %s" % (v["kind"], v["id"], v["msg"]), "at: " + " <- ".join(v["stack"][:6])])
            for again in range(4):
                n = native(rt, so, f)
                if n[0] not in ("diverged", "ok", "assume") or len(set(v["sched"])) < 2:
                    break
            what = "%s %s %s in %s; natively: %s %s" % (v["kind"], v["id"], v["msg"], name, n[0], n[1])
            if n[0] in ("assert", "panic", "signal", "deadlock", "nonterm", "timeout"):
                viols.append((f, what))
                bad = True
            else:
                unrepro.append((f, what))
        if r["errors"] and not r["violations"]:
            # a construct the engine does not interpret: those paths are not decided, and not claimed
            incomplete.append(dict(entry=c["entry"], params=c["params"], reason="; ".join("%s (%s paths)" % (k, n) for k, n in r["errors"].items())))
            r["complete"] = rec["complete"] = False
        if r["timed_out"] and not r["violations"]:
            incomplete.append(dict(entry=c["entry"], params=c["params"], reason="time limit of this configuration", paths=r["paths"]))
        if r["paths"] == 0 and not r["violations"] and not r["errors"] and not r["timed_out"]:
            vacuous.append(name)
        for x in c.get("reach", []):
            if str(x) not in r["reach"] and not r["violations"] and not r["timed_out"]:
                errors.append("%s: vacuous, witness %s not reached" % (name, x))
        # translation check: completed symbolic paths, re-run on the real code, must observe the same values
        for k, s in enumerate(r["samples"]):
            f = os.path.join(outdir, "%s-sample.replay" % prop)
            write_replay(f, c["entry"], c["params"], s["assign"], s["sched"], ["property " + prop, "harness " + c["harness"]])
            for again in range(3):
                n = native(rt, so, f)
                if n[0] == "ok" and n[2] == s["outs"] or len(set(s["sched"])) < 2 and r["max_threads"] < 2:
                    break
            if n[0] == "ok" and n[2] == s["outs"]:
                validated += 1
                if len(samples) < 6 and k == 0:
                    samples.append(dict(entry=c["entry"], params=rec["params"], inputs=s["assign"], schedule_length=len(s["sched"]), observed=s["outs"]))
            elif n[0] == "diverged":
                # the native run has other schedule points than the engine's (a lock of the standard
                # library, say): what the engine decided is not confirmed, and not claimed
                incomplete.append(dict(entry=c["entry"], params=c["params"], reason="the schedule could not be imposed on the native run"))
                rec["complete"] = False
                break
            elif not viols:
                errors.append("%s: engine and native run disagree: %s vs %s" % (name, s["outs"], n))
        log("%-10s %-90s paths=%d queries=%d solver=%.1fs wall=%.1fs%s%s" % (prop, name, r["paths"], r["queries"], r["solver_s"], r["wall_s"], "" if r["complete"] else " INCOMPLETE", " VIOLATED" if bad else ""))
        if bad:
            for x in futs:
                x.cancel()
            break
    pool.shutdown(wait=True, cancel_futures=True)
    ncomplete = sum(1 for r in runs if r["complete"] and r["paths"] > 0)
    if vacuous and (len(vacuous) * 4 > len(cfgs)):
        errors.append("%d of %d configurations are vacuous (no feasible path), for example %s" % (len(vacuous), len(cfgs), vacuous[0]))
    wall = time.time() - T0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viols),
        coverage=dict(
            states=tot["paths"] + tot["forks"] + tot["sched_forks"],
            transitions=tot["steps"],
            traces_validated_against_impl=validated,
            samples=samples,
            exhaustive=not incomplete and not errors and not viols,
            method="path-complete symbolic execution of the compiled LLVM IR, every branch and assertion decided by z3 over all values of the symbolic inputs within the bounds",
            bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            outside_the_bounds=spec.get("outside", ""),
            configurations=len(cfgs), configurations_decided_completely=ncomplete,
            configurations_not_decided=incomplete, configurations_without_a_feasible_path=vacuous,
            paths=tot["paths"], branch_forks=tot["forks"], schedule_forks=tot["sched_forks"], ir_steps=tot["steps"],
            assertions_checked=tot["asserts"], assertions_decided_by_solver=tot["asserts"] - tot["asserts_trivial"],
            assertion_sites=asserts, reachability_witnesses=reach,
            queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
            functions_encoded=sorted(f for f in functions if f.startswith(("/repo", "src/", "examples/")) or "/repo/" in f),
            functions_encoded_total=len(functions),
            runs=runs, errors=errors, not_reproduced=[w for _, w in unrepro],
        ),
        assumptions=spec.get("assumptions", []) + PR.COMMON_ASSUMPTIONS,
    )
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        if k["what"] in known_hits:
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        for f, w in viols[:1]:
            log("counterexample:", w)
            dst = os.path.join(VERIF, "evidence", "%s.replay" % prop)
            with open(f) as a, open(dst, "w") as b:
                b.write(a.read())
            log("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if unrepro or errors:
        for f, w in unrepro:
            log("NOT REPRODUCED", w, f)
        for e in errors:
            log("ERROR", e)
        return 2
    if incomplete:
        for x in incomplete:
            log("INCONCLUSIVE (not claimed):", json.dumps(x))
        if ncomplete * 2 < len(cfgs):
            log("ERROR fewer than half of the configurations were decided")
            return 2
    log("%s: held on everything explored: %d configurations, %d paths, %d queries, %.1f s solver, %d native re-runs agree, %.1f s" % (prop, ncomplete, tot["paths"], tot["queries"], tot["solver_s"], validated, wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        log("ERROR build:", e)
        sys.exit(2)
