"""The properties, and for each the configurations the solver decides."""

import random

HARNESSES = {"core": "vpcore", "flags": "vpflags", "tsptw": "vptsptw", "srflp": "vpsrflp", "srflpd": "vpsrflpd", "psp": "vppsp", "pspd": "vppspd"}

COMMON_ASSUMPTIONS = [
    "the code analysed is the LLVM IR that rustc 1.99 emits for /repo's current sources (release profile, overflow checks on), linked with the harness; the engine's reading of that IR is validated on every run by re-running completed symbolic paths natively on the same inputs and schedule and comparing every observed value",
    "parking_lot's mutex, rwlock and condvar are replaced by equivalents whose operations are the scheduling points; std::thread is modelled as creation/join; memory is sequentially consistent (the analysed code shares data only under these locks)",
    "the allocator never fails",
]


def mask(*groups):
    return sum(1 << g for g in groups)


# parameter numbers of the harness
SOLVER = MDD = FR = 0
CUT, THR, WID, SKEL, N, D, W, T, INF, RUB, SLACK, INIT, CONC, API = range(1, 15)
TYPE, DEPTH, WHICH, LB, PRE, BAR, UB, EMPTY, POLLS, LATER, NBT, BIG, OFF, SEED = range(15, 29)
DUE, MASK, VARY = 30, 31, 32


def cfg(entry, params, harness="core", **k):
    return dict(harness=harness, entry=entry, params={k: v for k, v in params.items() if v != 0}, **k)


def shape(n, d, w, t=1, conc=0, rub=0, infeas=0, skel=0, slack=0, init=0, off=0, seed=0):
    return {N: n, D: d, W: w, T: t, CONC: conc, RUB: rub, INF: infeas, SKEL: skel, SLACK: slack, INIT: init, OFF: off, SEED: seed}


SPECIAL = [-1, -2, -3, -4, -5, -6]


def solve_shapes(tier, seed, heavy=True):
    """(shape, width) pairs used for whole resolutions by one thread"""
    out = []
    # every cost symbolic
    out += [(shape(3, 2, 3), 1), (shape(3, 2, 3, rub=2), 2), (shape(3, 2, 3, t=2, skel=1, infeas=20), 2)]
    # hand-made corner cases
    out += [(shape(3, 2, 3, skel=k, conc=c), w) for k, c in zip(SPECIAL, (4, 1, 1, 1, 1, 8)) for w in (1, 2)]
    # larger graphs, some costs symbolic
    k = 10 * seed
    out += [(shape(4, 2, 3, conc=8, rub=1, infeas=15, skel=k + 1, t=2, off=1), 2),
            (shape(4, 2, 4, conc=12, skel=k + 2, slack=1, off=2), 2),
            (shape(4, 3, 4, conc=9, rub=2, infeas=25, skel=k + 3, init=1), 2),
            (shape(5, 2, 4, conc=8, rub=0, infeas=10, skel=k + 4, off=3), 1),
            (shape(5, 2, 4, conc=9, rub=2, skel=k + 5, off=4, seed=1), 3),
            (shape(5, 3, 3, conc=11, rub=1, infeas=35, skel=k + 6, t=3, off=5), 2),
            (shape(6, 2, 4, conc=12, rub=2, infeas=10, skel=k + 7, off=2, seed=2), 2),
            (shape(6, 2, 5, conc=14, rub=0, infeas=25, skel=k + 8, t=2, off=3, seed=3), 3)]
    if tier == "thorough":
        for i in range(60):
            out.append((shape(4 + i % 3, 2 + (i // 3) % 2, 3 + i % 3, t=1 + i % 3, conc=6 + i % 7 + 4 * (i % 3), rub=i % 3, infeas=(0, 10, 25, 40)[i % 4], skel=k + 20 + i, slack=(i // 2) % 2, init=(i // 5) % 2, off=i, seed=i), 1 + i % 4))
        out += [(shape(3, 2, 3, rub=1, conc=2), 1), (shape(4, 2, 3, conc=2), 2), (shape(3, 3, 4, conc=2), 2), (shape(4, 2, 4, conc=3, rub=1, infeas=15), 2)]
    return out


def sweep(seed, count, nsym=(1, 1, 2), nmax=6, salt=0):
    """(shape, width): many random skeletons, most costs concrete (small integers, so that ties abound)"""
    r = random.Random(seed * 1000003 + salt)
    z = random.Random(seed * 1000003 + salt + 77)  # independent of how a caller derives other choices from the position
    out = []
    for j in range(count):
        n, d, w = r.randint(4, nmax), r.choice((2, 2, 3)), r.randint(3, 5)
        wid = r.randint(1, 4)
        if z.randrange(6) == 5:
            # two states per layer: merged states coincide with kept ones
            w, wid = 2, 2
        inf = r.choice((0, 0, 15, 35))
        arcs = int((1 + (n - 1) * w) * d * (1 - inf / 100))
        conc = max(2, arcs // r.choice(nsym))
        out.append((shape(n, d, w, t=r.randint(1, 3), conc=conc, rub=r.choice((0, 2, 4)), infeas=inf, skel=1000 + 2 * r.randrange(10 ** 6) + r.randrange(2), off=r.randrange(conc), seed=r.randrange(10 ** 6)), wid))
        # merged states owe a part of their completions' value: redirected arcs change their cost
        due = z.choice((0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3))
        out[-1][0][DUE] = due
        if due == 3:
            out[-1][0][CONC] = conc * 3
    return out


def c_width(tier, seed):
    """whole resolutions where the width depends on the state"""
    return [cfg("h_solve", {**sh, SOLVER: i % 3, CUT: i // 3 % 2, THR: 1, WID: 1 + i // 6 % 2, VARY: 1 + i % 2, MASK: mask(7)}, samples=1) for i, (sh, w) in enumerate(sweep(seed, 60 if tier == "quick" else 600, (1, 1, 2), salt=7))]


def c_sweep(solvers, count, *groups, salt=0, entry="h_solve", nsym=(1, 1, 2)):
    def f(tier, seed):
        out = []
        for i, (sh, w) in enumerate(sweep(seed, count if tier == "quick" else 12 * count, nsym, salt=salt)):
            for s in solvers:
                if entry == "h_solve":
                    out.append(cfg("h_solve", {**sh, SOLVER: s, CUT: i % 2, THR: 1, WID: w, API: i % 2, MASK: mask(*groups)}, samples=1))
                else:
                    out.append(cfg("h_intr", {**sh, SOLVER: s, CUT: i % 2, THR: 1, WID: w, API: 2, POLLS: 3 + i % 3, LATER: i % 2, MASK: mask(*groups)}, samples=1))
        return out
    return f


def c_ddsweep(mdds, types, count, *groups, salt=0, pre=False, bars=(0,), nsym=(1, 2, 2, 3)):
    """one compilation on each of many random skeletons"""
    def f(tier, seed):
        out = []
        r = random.Random(seed * 7919 + salt)
        for i, (sh, w) in enumerate(sweep(seed, count if tier == "quick" else 12 * count, nsym, salt=salt + 17)):
            t = types[i % len(types)]
            m = mdds[i // len(types) % len(mdds)]
            p = {**sh, MDD: m, CUT: r.randrange(2), WID: w, TYPE: t, DEPTH: r.choice((0, 0, 1, 2)), WHICH: r.randrange(8), LB: r.randrange(2), UB: r.randrange(2), INIT: r.randrange(2),
                 PRE: r.choice((1, 2, 6, 9, 10, 26)) if pre else 0, BAR: r.choice(bars) if m == 1 else 0, MASK: mask(*groups)}
            if p[BAR]:
                p[LB] = 1  # thresholds below a lower bound that is the smallest integer do not exist
            # symbolic bounds fork a lot in the larger graphs
            if sh[N] * sh[D] >= 12 and p[DEPTH] == 0:
                p[UB] = p[INIT] = 0
                p[BAR] = min(p[BAR], 2)
            elif p[LB] and p[UB]:
                p[INIT] = 0
            out.append(cfg("h_dd", p, samples=1))
        return out
    return f


def both(*fs):
    return lambda tier, seed: [c for f in fs for c in f(tier, seed)]


def c_solve(solvers, *groups):
    def f(tier, seed):
        out = []
        for i, (sh, w) in enumerate(solve_shapes(tier, seed)):
            for s in solvers:
                for c in (0, 1):
                    out.append(cfg("h_solve", {**narrow(sh, s, tier), SOLVER: s, CUT: c, THR: 1, WID: w, API: i % 2, MASK: mask(*groups)}))
        return out
    return f


def narrow(sh, s, tier):
    """the barrier solver forks more: two costs concrete where all would be symbolic"""
    if tier == "quick" and s == 2 and sh[CONC] == 0:
        return {**sh, CONC: 2}
    return sh


def dd_shapes(tier, seed, extra=10):
    """(shape, width, depth of the root, prefix, lb symbolic, ub symbolic)"""
    k = 10 * seed
    out = [(shape(3, 2, 3), 1, 0, 0, 0, 0), (shape(3, 2, 3), 2, 0, 0, 1, 0), (shape(3, 2, 3, rub=2, t=2, infeas=15, skel=1), 2, 0, 0, 1, 0),
           (shape(4, 2, 3, conc=8, rub=1, skel=k + 1, t=2, off=1), 2, 0, 0, 1, 0),
           (shape(4, 2, 4, conc=5, skel=k + 2, slack=1, off=2), 2, 0, 0, 0, 0),
           (shape(5, 2, 4, conc=6, rub=2, infeas=20, skel=k + 3, off=1, init=1), 2, 0, 0, 1, 0),
           (shape(5, 2, 4, conc=6, rub=0, infeas=10, skel=k + 4, off=3, t=2), 2, 1, 1, 1, 1),
           (shape(5, 3, 4, conc=12, rub=2, infeas=30, skel=k + 5, off=4, t=2), 3, 1, 0, 0, 1),
           (shape(6, 2, 4, conc=10, rub=1, infeas=15, skel=k + 6, off=2), 1, 2, 1, 1, 0),
           (shape(6, 2, 5, conc=18, rub=2, infeas=10, skel=k + 7, off=5, t=2, slack=1), 3, 1, 0, 1, 1)]
    out += [(shape(3, 2, 3, skel=s, conc=c), w, 0, 0, 1, 0) for s, c in zip(SPECIAL, (4, 1, 1, 1, 1, 8)) for w in (1, 2)]
    if tier == "thorough":
        extra = 60
    if extra:
        for i in range(extra):
            n = 4 + i % 3
            out.append((shape(n, 2 + (i // 3) % 2, 3 + i % 3, t=1 + i % 3, conc=5 + i % 7 + 4 * (i % 3), rub=i % 3, infeas=(0, 10, 25, 40)[i % 4], skel=k + 20 + i, slack=(i // 2) % 2, init=(i // 5) % 2, off=i, seed=i), 1 + i % 4, i % (n - 2), i // 4, (i // 2) % 2, (i // 3) % 2))
    if tier == "thorough":
        out += [(shape(3, 3, 4, conc=2), 2, 0, 0, 1, 0), (shape(4, 2, 3, conc=2), 2, 0, 0, 1, 0), (shape(4, 2, 3, conc=2, rub=1), 1, 0, 0, 1, 0)]
    return out


def c_dd(mdds, types, *groups, pre=False, bars=(0,)):
    def f(tier, seed):
        out = []
        for i, (sh, w, depth, which, lb, ub) in enumerate(dd_shapes(tier, seed, extra=0 if pre or len(bars) > 1 else 24)):
            if pre and tier == "quick":
                sh = {**sh, CONC: max(2, sh[CONC] + sh[N] - 2), RUB: 0 if sh[W] == 5 else sh[RUB], SLACK: 0}
            for m in mdds:
                for t in types:
                    for c in ((0, 1) if t == 2 else (i % 2,)):
                        for b in bars:
                            h = 0
                            if pre:
                                # up to three earlier compilations, ending with a relaxed or restricted one
                                h = (2 + 4 * 1, 1 + 4 * 2, 2 + 4 * 2 + 16 * 1, 2)[i % 4]
                            out.append(cfg("h_dd", {**sh, MDD: m, CUT: c, WID: w, TYPE: t, DEPTH: depth, WHICH: which, LB: 1 if m == 1 and b else lb, UB: ub, PRE: h, BAR: b if m == 1 else 0, MASK: mask(*groups)}))
        return out
    return f


def c_intr(*groups):
    def f(tier, seed):
        out = []
        for i, (sh, w) in enumerate(solve_shapes(tier, seed)):
            for s in (0, 1, 2):
                out.append(cfg("h_intr", {**narrow(sh, s, tier), SOLVER: s, CUT: (i + s) % 2, THR: 1, WID: w, API: 2, POLLS: 5, LATER: i % 2, MASK: mask(*groups)}))
        k = 10 * seed
        for i, (sh, w) in enumerate([(shape(3, 2, 3, conc=4), 1), (shape(4, 2, 3, conc=12, rub=2, skel=k + 2), 2), (shape(4, 2, 4, conc=16, infeas=15, skel=k + 1, off=3), 1)]):
            for s in (0, 1, 2):
                out.append(cfg("h_intr", {**sh, SOLVER: s, CUT: (i + s) % 2, THR: 2, WID: w, API: 2, POLLS: 5, LATER: i % 2, MASK: mask(*groups)}, preempt=1 if tier == "quick" else 2))
        return out
    return f


def c_again(tier, seed):
    """the same solver run several times: 1 stopped at any poll, 2 maximize(), 3 never stopped"""
    out = []
    q = tier == "quick"
    g = mask(21)

    def runs(*ks):
        return sum(k * 4 ** i for i, k in enumerate(ks))
    hist = [runs(1, 2), runs(1, 3), runs(1, 1, 2), runs(2, 2), runs(3, 1, 3), runs(1, 1, 1, 3), runs(2, 1, 2)]
    shapes = [({**sh, CONC: sh[CONC] + 5}, w) for sh, w in solve_shapes("quick", seed)[3:15]] + sweep(seed, 150 if q else 800, (1, 1, 2), salt=28)
    for i, (sh, w) in enumerate(shapes):
        if q and sh.get(DUE) == 3:
            sh = {**sh, DUE: 2}
        for s in (0, 1, 2):
            out.append(cfg("h_again", {**sh, SOLVER: s, CUT: (i + s) % 2, THR: 1, WID: w, POLLS: 3 + i % 3, 29: hist[(i + s) % len(hist)], MASK: g}, samples=1))
    r = random.Random(seed * 53 + 9)
    for i in range(18 if q else 150):
        s = i % 3
        sh = shape(3, 2, 3, conc=20, skel=seed + i, off=r.randrange(20), infeas=(0, 20)[i // 3 % 2], seed=r.randrange(1000))
        out.append(cfg("h_again", {**sh, SOLVER: s, CUT: i // 3 % 2, THR: 2, WID: 1, POLLS: 2, 29: hist[(0, 1, 3)[i // 6 % 3]], MASK: g}, preempt=1, samples=1))
    return out


def c_threads(tier, seed):
    out = []
    g = mask(0, 1, 2, 3)
    k = 10 * seed
    P = 2 if tier == "quick" else 3
    sh3 = shape(3, 2, 3, conc=4)
    for s in (0, 1, 2):
        for c in (0, 1):
            out.append(cfg("h_solve", {**sh3, SOLVER: s, CUT: c, THR: 2, WID: 1, MASK: g}, preempt=1))
            out.append(cfg("h_solve", {**shape(3, 2, 3, conc=20, off=3), SOLVER: s, CUT: c, THR: 2, WID: 1, MASK: g}, preempt=P))
            out.append(cfg("h_solve", {**shape(4, 2, 3, conc=16, rub=2, skel=k + 2), SOLVER: s, CUT: c, THR: 2, WID: 2, MASK: g}, preempt=1))
            out.append(cfg("h_solve", {**shape(4, 2, 4, conc=20, infeas=15, skel=k + 3, t=2), SOLVER: s, CUT: c, THR: 3, WID: 1, MASK: g}, preempt=1))
            out.append(cfg("h_solve", {**shape(3, 2, 3, skel=-2, conc=20), SOLVER: s, CUT: c, THR: 2, WID: 1, MASK: g}, preempt=P))
            out.append(cfg("h_intr", {**shape(3, 2, 3, conc=20, off=3), SOLVER: s, CUT: c, THR: 2, WID: 1, API: 2, POLLS: 4, MASK: g}, preempt=P))
        out.append(cfg("h_solve", {**shape(3, 2, 3, conc=20), SOLVER: s, THR: 1, NBT: 3, WID: 1, MASK: g}, preempt=1))
        out.append(cfg("h_solve", {**shape(3, 2, 3, conc=20), SOLVER: s, CUT: 1, THR: 3, NBT: 2, WID: 1, MASK: g}, preempt=1))
    return out


def c_threadsweep(count, *groups, salt=0):
    """two threads on a number of small graphs with few symbolic costs: one preemption anywhere"""
    def f(tier, seed):
        out = []
        r = random.Random(seed * 65537 + salt)
        for i in range(count if tier == "quick" else 10 * count):
            s = i % 3
            sh = shape(3, 2, 3, conc=18 if s == 2 else 10, skel=seed + i, off=r.randrange(10), infeas=(0, 0, 20)[i // 3 % 3], seed=r.randrange(1000), t=1 + i // 6 % 2)
            if i % 4 == 1:
                sh = {**sh, D: 3, W: 4, CONC: 24 if s == 2 else 12}
            if i % 4 == 3:
                sh = {**sh, N: 4, CONC: 18, RUB: (0, 4)[i // 4 % 2]}
            out.append(cfg("h_solve", {**sh, SOLVER: s, CUT: i // 3 % 2, THR: 2, WID: 1 + (i // 2) % 2, MASK: mask(*groups)}, preempt=1, samples=1))
        return out
    return f


def c_any(tier, seed):
    out = []
    k = 10 * seed
    shapes = [(shape(3, 2, 3, rub=3, init=1, conc=4) if tier == "thorough" else shape(3, 2, 3, rub=3, conc=40), 1), (shape(3, 2, 3, rub=3, init=1, conc=5, t=2, skel=k + 1, infeas=20, off=2), 2), (shape(4, 2, 3, rub=3, conc=40, skel=k + 2, off=1, infeas=30), 1)]
    big = [(shape(3, 2, 3, init=1, conc=2), 1), (shape(4, 2, 3, init=1, conc=18, rub=1, skel=k + 3), 2), (shape(4, 2, 4, init=1, conc=6, rub=2, skel=k + 4, infeas=20, t=2), 1)]
    if tier == "thorough":
        shapes += [(shape(3 + i % 3, 2, 3, rub=3, init=1, conc=(4, 12, 20)[i % 3], skel=k + 10 + i, infeas=(0, 20)[i % 2], off=i, t=1 + i % 2), 1 + i % 2) for i in range(12)]
        big += [(shape(3 + i % 3, 2, 3, init=1, conc=(3, 6, 9)[i % 3], rub=i % 3, skel=k + 10 + i, infeas=(0, 20)[i % 2], off=i, t=1 + i % 2), 1 + i % 2) for i in range(12)]
    for s in (0, 1, 2):
        for c in (0, 1):
            for sh, w in shapes:
                if s == 2 and sh[N] == 3:
                    sh = {**sh, CONC: sh[CONC] + 6}
                out.append(cfg("h_any", {**sh, SOLVER: s, CUT: c, THR: 1, WID: w}))
            for sh, w in big:
                out.append(cfg("h_solve", {**sh, SOLVER: s, CUT: c, THR: 1, WID: w, BIG: 58}))
    return out


def c_protocol(tier, seed):
    g = mask(62)
    out = []
    for i, (sh, w) in enumerate(solve_shapes(tier, seed)):
        for s in (i % 2, 2):
            out.append(cfg("h_solve", {**narrow(sh, s, tier), SOLVER: s, CUT: (i // 2) % 2, THR: 1, WID: w, EMPTY: i % 3 == 0 and 1 or 0, MASK: g}))
    return out


def c_front(kind, *groups):
    def f(tier, seed):
        out = []
        pats = ["1234", "12345", "12173", "11213", "121732", "712371", "1231723", "3217123", "112233", "1212712", "123456", "1727374", "1122711"]
        if tier == "thorough":
            import random
            r = random.Random(seed)
            pats += ["12345612", "1234561", "123123712", "1212121", "123471237"]
            pats += ["".join(r.choice("1234123577") for _ in range(r.randint(6, 9))) for _ in range(40)]
        for i, p in enumerate(pats):
            for rk in (0, 1, 2):
                if rk and i % 2 and tier == "quick":
                    continue
                out.append(cfg("h_front", {FR: kind, 40: sum(int(c) * 8 ** j for j, c in enumerate(p)), 41: rk, 42: 1 if i % 4 == 3 else 0, MASK: mask(*groups)}))
        # long histories, a few pushes free
        import random
        r = random.Random(seed * 43 + kind)
        for i in range(160 if tier == "quick" else 2000):
            ops = (20, 30, 40, 60)[i % 4]
            out.append(cfg("h_front", {FR: kind, 43: r.randrange(1, 10 ** 6), 44: ops, 45: r.choice((4, 8, 12, 30)), 46: (5, 7, 9, 14)[i % 4] if tier == "quick" else (4, 5, 7, 9)[i % 4], 47: r.choice((4, 10, 30)), 41: (0, 0, 1, 2)[i // 4 % 4], MASK: mask(*groups)}, samples=1))
        return out
    return f


def c_bits(tier, seed):
    out = []
    bv = dict(opts=["--bv"])
    full = -1
    edge = -4611686016279904253  # bits 0 1 31 32 62 63
    spread = 0x0111011101110111
    for size in (1, 5, 63, 64, 65, 70, 127, 128, 129) + ((190, 192, 200) if tier == "thorough" else ()):
        out.append(cfg("h_bits", {50: size, 51: full, 52: full, 53: 1}, **bv))
        out.append(cfg("h_bits", {50: size, 51: edge, 52: edge}, **bv))
    out.append(cfg("h_bits", {50: 64, 51: spread}, **bv))
    out.append(cfg("h_bits", {50: 100, 51: full, 52: full, 53: 2}, **bv))
    if tier == "thorough":
        out.append(cfg("h_bits", {50: 40, 51: full, 52: full, 53: 3}, **bv))
        out.append(cfg("h_bits", {50: 12, 51: full, 52: full}, **bv))
        out.append(cfg("h_bits", {50: 128, 51: 0x1249249, 52: 1 << 63 | 0x8008 if False else 0x8008}, **bv))
    return out


def c_lex(tier, seed):
    bv = dict(opts=["--bv"], jobs=8)
    out = []
    for s, t in [(5, 5), (64, 64), (70, 70), (128, 128), (64, 128), (128, 30)] + ([(130, 130), (192, 192), (65, 190)] if tier == "thorough" else []):
        out.append(cfg("h_lex", {50: s, 54: t, 51: -1, 52: -1}, **bv))
    return out


def c_matrix(tier, seed):
    dims = [(1, 1), (1, 4), (4, 1), (3, 4), (4, 3), (5, 5)] + ([(7, 3), (3, 8), (8, 8)] if tier == "thorough" else [])
    return [cfg("h_matrix", {50: n, 51: m, 52: k}) for n, m in dims for k in (0, 1)]


def c_names(tier, seed):
    return [cfg("h_names", {50: n, 51: k}) for k in (0, 1, 2) for n in range(0, 13 if tier == "quick" else 24)]


def c_timeout(tier, seed):
    q = tier == "quick"
    return [cfg("h_timeout", {90: n, 91: k, 92: 3, 93: int(pre == 0), 60: 1}, preempt=pre) for k in (0, 1) for n in ((0, 2) if q else (0, 2, 4)) for pre in ((0, 2, 4) if q else (0, 2, 4, 6))]


def c_driver(tier, seed):
    out = []
    k = 10 * seed
    base = [(shape(3, 2, 3, conc=3), 1), (shape(3, 2, 3, conc=4, skel=k + 1, infeas=25, init=1), 2), (shape(4, 2, 3, conc=12, rub=2, skel=k + 2), 1)]
    base += [(shape(3, 2, 3, skel=x, conc=4), 1) for x in (-1, -2, -3, -5, -6)]
    for i, (sh, w) in enumerate(base + sweep(seed, 60 if tier == "quick" else 400, (1, 2), nmax=5, salt=5)):
        for s in (0, 2):
            for late in (0, 5, 9) if tier == "quick" else (0, 3, 6, 9, 13):
                # small costs: the driver prints numbers, which makes each value a path of its own
                out.append(cfg("h_driver", {**sh, SOLVER: s, CUT: (i + late) % 2, THR: 1, WID: w, BIG: 1 + i % 2, 60: late, 61: 1}, samples=1))
        if i < 4:
            out.append(cfg("h_driver", {**sh, CONC: 30, SOLVER: 2 * (i % 2), CUT: i % 2, THR: 2, WID: w, BIG: 1, 61: 1}, preempt=1, samples=1))
    return out


def c_tsptw(tier, seed):
    r = random.Random(seed * 31 + 7)
    q = tier == "quick"
    # the two listed findings, shown
    out = [cfg("h_relax", {50: 4, 51: 1, 54: 4, 55: 1, 94: 1}, harness="tsptw"), cfg("h_relax", {50: 6, 51: 44, 53: 622, 54: 86, 55: 1, 56: 4, 58: 5, 94: 2}, harness="tsptw"),
           cfg("h_solve", {50: 5, 53: 5891, 56: 9, 57: 5, 58: 1, 70: 2, 71: 0, 72: 2, 94: 1}, harness="tsptw")]
    out += [cfg("h_exact", {50: n, 51: k}, harness="tsptw") for n, ks in ((3, 1), (4, 4), (5, 4 if q else 12), (6, 0 if q else 4)) for k in range(ks)]
    out += [cfg("h_exact", {50: 6, 51: k, 53: k, 56: 2, 58: k % 2}, harness="tsptw") for k in range(4)]
    # tours through merged states, every distance and window symbolic
    out += [cfg("h_relax", {50: 4, 51: k, 54: m, 55: o}, harness="tsptw") for k in range(2 if q else 6) for m in (2, 4, 6, 8, 12) for o in (1, 2) if o == 1 or m != 6 or not q]
    # longer ones, a part of them symbolic
    for k in range(60 if q else 600):
        n = (5, 5, 6, 7)[k % 4]
        out.append(cfg("h_relax", {50: n, 51: r.randrange(1000), 53: r.randrange(1000), 54: r.randrange(1, 2 ** n) * 2, 55: r.randint(1, 3), 56: (3, 2, 4, 8)[k % 4], 58: r.randrange(8)}, harness="tsptw", samples=1))
    for k in range(80 if q else 600):
        n = (4, 5, 5, 6)[k % 4]
        out.append(cfg("h_solve", {50: n, 53: r.randrange(10000), 56: (8, 14, 9, 20)[k % 4], 57: (6, 5, 4, 5)[k % 4], 58: r.randrange(20), 70: 2 * (k // 4 % 2), 71: k // 8 % 2, 72: r.choice((0, 1, 1, 2, 3))}, harness="tsptw", samples=1))
    return out


def c_srflp(tier, seed):
    r = random.Random(seed * 37 + 11)
    q = tier == "quick"
    S = dict(harness="srflp")
    # a listed finding, shown: with overflow checks, as a debug build has them
    out = [cfg("h_exact", {50: 3, 51: 0, 52: 0, 57: 9}, harness="srflpd")]
    # every flow symbolic, or every length
    out += [cfg("h_exact", {50: 4, 51: k, 52: 0, 53: seed, 57: 100}, **S) for k in range(1 if q else 6)]
    out += [cfg("h_exact", {50: 3, 51: k, 52: w, 57: 1000}, **S) for k in range(3) for w in (0, 1)]
    out += [cfg("h_exact", {50: 4, 51: k, 52: 1, 53: seed + k, 57: 1000}, **S) for k in range(4)]
    out += [cfg("h_exact", {50: 5, 51: k, 52: 1, 53: seed + k, 57: 100}, **S) for k in range(2 if q else 10)]
    # large and nearly equal numbers
    out += [cfg("h_exact", {50: n, 51: k, 52: k % 2, 53: k, 57: 10, 73: o, 56: n - 2}, **S) for k in range(4) for n, o in ((3, 4980), (4, 4980), (3, 100000))]
    out += [cfg("h_exact", {50: n, 51: k, 52: k % 2, 53: seed + k, 56: (4, 5, 9)[n - 5] if k % 2 == 0 else (2, 2, 2)[n - 5], 57: 50, 58: k}, **S) for k in range(2 if q else 10) for n in (5, 6, 7)]
    # through merged states
    for k in range(80 if q else 800):
        n = (4, 4, 5, 6)[k % 4]
        w = k // 4 % 2
        every = {4: (2, 1), 5: (4, 1), 6: (6, 2)}[n][w]
        out.append(cfg("h_relax", {50: n, 51: r.randrange(1000), 52: w, 53: r.randrange(1000), 54: r.randrange(1, 2 ** (n - 1)) * 2, 55: r.randint(1, 3), 56: every, 57: 40, 58: r.randrange(8)}, samples=1, **S))
    for k in range(80 if q else 600):
        n = (4, 5, 5, 6)[k % 4]
        w = k // 4 % 2
        out.append(cfg("h_solve", {50: n, 52: w, 53: r.randrange(10000), 56: {4: (4, 2), 5: (6, 3), 6: (14, 6)}[n][w], 57: 10, 58: r.randrange(20), 70: 2 * (k // 8 % 2), 71: k // 16 % 2, 72: r.choice((0, 1, 1, 2, 3))}, samples=1, **S))
    return out


def c_psp(tier, seed):
    r = random.Random(seed * 41 + 13)
    q = tier == "quick"
    S = dict(harness="psp")
    # a listed finding, shown: with overflow checks, as a debug build has them
    out = [cfg("h_exact", {50: 3, 51: 2, 57: 9}, harness="pspd")]
    # every set of orders and every plan
    out += [cfg("h_exact", {50: 3, 51: 2, 57: 1000, 59: k}, **S) for k in (0, 1)]
    out += [cfg("h_exact", {50: 2, 51: 3, 57: 100}, **S), cfg("h_exact", {50: 1, 51: 3, 57: 100}, **S)]
    if not q:
        out += [cfg("h_exact", {50: 4, 51: 2, 57: 100}, **S), cfg("h_exact", {50: 3, 51: 3, 57: 100}, **S)]
    # longer ones: every cost symbolic, some plans
    for k in range(60 if q else 400):
        h, n = ((5, 2), (5, 3), (7, 3), (8, 2))[k % 4]
        out.append(cfg("h_exact", {50: h, 51: n, 52: 1 + r.randrange(1000), 53: r.randrange(1, 10000), 55: (40, 30, 25, 35)[k % 4], 74: 3, 57: 100, 59: k // 4 % 4 == 3 and 1 or 0, 56: 1 if k // 4 % 4 < 3 else 3}, samples=1, **S))
    for k in range(100 if q else 800):
        h, n = ((5, 2), (5, 3), (7, 3), (8, 2), (6, 4))[k % 5]
        out.append(cfg("h_relax", {50: h, 51: n, 52: 1 + r.randrange(1000), 53: r.randrange(1, 10000), 54: r.randrange(1, 2 ** h), 55: (40, 30, 25, 35, 20)[k % 5], 74: 3, 57: 100, 59: 0, 56: 1}, samples=1, **S))
    for k in range(100 if q else 700):
        h, n = ((4, 2), (5, 2), (4, 3), (5, 3), (6, 2))[k % 5]
        out.append(cfg("h_solve", {50: h, 51: n, 53: r.randrange(1, 10000), 55: (50, 45, 35, 30, 40)[k % 5], 74: 0 if k % 10 == 0 else r.randint(3, 4), 56: (2, 2, 4, 4, 2)[k % 5], 57: 10, 58: r.randrange(20), 59: k % 3 == 0 and 1 or 0, 70: 2 * (k // 5 % 2), 71: k // 10 % 2, 72: r.choice((0, 1, 1, 2, 3))}, samples=1, **S))
    return out


def c_parse(tier, seed):
    r = random.Random(seed * 47 + 3)
    q = tier == "quick"
    bv = ["--bv", "--qtimeout", "120000"]
    # the listed finding, shown
    out = [cfg("h_parse", {50: 1, 53: 5, 54: 1, 55: 2, 56: 8, 58: 1, 94: 4}, harness="tsptw", opts=bv)]
    # one number's digits free: the reading goes through 32-bit floats
    for k in range(24 if q else 200):
        n = (1, 2, 2, 3)[k % 4]
        out.append(cfg("h_parse", {50: n, 53: r.randrange(1, 10 ** 6), 54: (1, 2, 3)[k % 3], 55: (0, 1, 0, 2)[k // 3 % 4], 56: n * n + 2 * n, 58: r.randrange(n * n + 2 * n)}, harness="tsptw", opts=bv, samples=1))
    # every digit free
    for k in range(60 if q else 400):
        n = (1, 2, 3, 4)[k % 4]
        out.append(cfg("h_parse", {50: n, 53: r.randrange(1, 10 ** 6), 54: (3, 3, 2, 1)[k % 4] if k % 3 else 5, 56: 1 if k % 3 else n}, harness="srflp", opts=bv, samples=1))
    for k in range(60 if q else 400):
        h, n = ((3, 1), (3, 2), (4, 2), (3, 3))[k % 4]
        out.append(cfg("h_parse", {50: h, 51: n, 53: r.randrange(1, 10 ** 6), 54: 1 if n == 3 else 2, 56: 3 if n == 3 else 2, 58: r.randrange(3)}, harness="psp", opts=bv, samples=1))
    return out


def c_flags(tier, seed):
    return [cfg("h_flags", {50: n}, harness="flags", opts=["--bv"]) for n in range(1, 3 if tier == "quick" else 4)]


DD_BOUNDS = "layered problems of 3 to 6 variables with 2 or 3 values, at most 5 states per layer, 1 to 3 terminal states; all costs (3 variables) or a subset of them, the root value, the lower bound, the residual upper bound, the rough bounds and the relaxation slack range over [-1000,1000] (bounds over [-20000,20000]); widths 1 to 4; roots at depth 0 to 3; both cutset types"
SOLVE_BOUNDS = "layered problems of 3 to 6 variables with 2 or 3 values, at most 5 states per layer, 1 to 3 terminal states, including problems with dead ends and without any solution; all costs (3 variables) or a subset of them, initial value, rough bounds and relaxation slack range over [-1000,1000]; widths 1 to 4; both cutset types; one worker thread"
OUT_DD = "larger graphs, more values, wider layers, costs beyond the stated range, state spaces where merging does not keep the layer depth"
PROPS = {}


def prop(pid, configs, bounds, outside, assumptions=(), budget=None):
    PROPS[pid] = dict(configs=configs, bounds=bounds, outside=outside, assumptions=list(assumptions), budget=budget or {"quick": 400, "thorough": 3000})


prop("P01", both(c_solve((0, 1), 0, 1), c_sweep((0, 1), 120, 0, 1), c_ddsweep((0,), (2, 2, 1), 150, 4, 5, 9)), SOLVE_BOUNDS, OUT_DD)
prop("P02", both(c_solve((2,), 0, 1), c_sweep((2,), 250, 0, 1), c_ddsweep((1,), (2, 2, 1), 250, 4, 5, 6, 9, bars=(0, 2, 4))), SOLVE_BOUNDS, OUT_DD)
prop("P03", lambda t, s: c_solve((0, 1, 2), 2)(t, s)[::2 if t == "quick" else 1] + c_intr(2)(t, s) + c_threadsweep(180, 2, salt=3)(t, s), SOLVE_BOUNDS + "; also when the search is cut short at any of its first 5 polls, and with 2 threads on small graphs, all schedules with one preemption", OUT_DD)
prop("P04", both(c_dd((0, 1), (2,), 9), c_ddsweep((0, 1), (2,), 300, 9, bars=(0, 0, 3))), DD_BOUNDS, OUT_DD)
prop("P05", both(c_dd((0, 1), (0, 1, 2), 4), c_ddsweep((0, 1), (0, 1, 2), 300, 4, bars=(0, 0, 3))), DD_BOUNDS, OUT_DD)
prop("P06", both(c_dd((0, 1), (2,), 5), c_ddsweep((0, 1), (2,), 300, 5, bars=(0, 0, 3))), DD_BOUNDS, OUT_DD)
prop("P07", both(c_dd((0, 1), (1, 2), 7, 8), c_ddsweep((0, 1), (1, 2), 300, 7, 8, bars=(0, 0, 3)), c_width), DD_BOUNDS, OUT_DD)
prop("P08", c_front(0, 10), "up to 6 pushes (8 thorough) of up to 6 distinct states interleaved with pops and a clear; every value and bound in [-1000,1000]; three state rankings; histories of 20 to 60 operations on up to 30 states, a few values and bounds free and the others drawn", "longer histories with everything free")
prop("P09", c_front(1, 10, 11), "up to 6 pushes (8 thorough) of up to 6 distinct states, with repetitions, interleaved with pops and a clear; every value and bound in [-1000,1000]; three state rankings; histories of 20 to 60 operations on up to 30 states, a few values and bounds free and the others drawn", "longer histories with everything free")
prop("P10", both(c_intr(1, 3), c_sweep((0, 1, 2), 60, 1, 3, entry="h_intr", nsym=(1,))), SOLVE_BOUNDS + "; the cutoff answers freely at each of its first 5 polls; 2 threads with up to 1 preemption (2 thorough) on the smaller shapes", OUT_DD)
prop("P11", both(c_dd((1,), (2,), 6, bars=(0, 2, 4)), c_ddsweep((1,), (2,), 200, 6, bars=(0, 2, 3, 4))), DD_BOUNDS + "; up to 4 thresholds present beforehand", OUT_DD)
prop("P12", both(c_threads, c_threadsweep(90, 0, 1, 2, 3, salt=12)), "2 or 3 threads, all schedules with at most 2 preemptions (3 thorough; 1 with 3 threads) at lock, unlock, wait and notify operations; problems of 3 or 4 variables with 1 to 4 symbolic costs", "more preemptions, more threads, data races (excluded by the borrow checker), larger problems")
prop("P13", c_any, "problems of 3 to 5 variables; costs, initial value and rough bounds anywhere in the 64-bit range (no panic, termination, consistent feasible report), and anywhere in [-2^58,2^58] (the optimum is right)", "sums whose exact value does not fit 64 bits have no reference value; larger problems")
prop("P14", c_bits, "sets of 1 to 129 elements (200 thorough): every word value for the first element (two for size 100), every subset of up to 18 chosen positions including all word boundaries for whole iterations", "arbitrary subsets of more than 18 positions at once")
prop("P15", c_lex, "every pair of sets of up to 128 elements (192 thorough), also of different sizes", "larger sets")
prop("P16", c_matrix, "dimensions up to 5x5 (8x8 thorough), every pair of positions and every value", "larger matrices")
prop("P17", c_names, "every ASCII string of up to 12 characters (23 thorough) for the three enumerations", "non-ASCII strings; longer strings")
prop("P26", c_timeout, "actions and closing actions of up to 2 steps each (4 thorough), or an action that never ends, limits of 0 to 3 s, all schedules of the two threads with at most 4 preemptions (6 thorough); after its delay the sleeping thread goes on at any moment", "closing or main actions that panic; the drift of real clocks")
prop("P21", c_driver, "layered problems of 3 to 5 variables, including infeasible ones; symbolic costs and initial value in [-2,2] or [-4,4], the others concrete; the clock may jump past the limit between any of its first 7 readings (11 thorough); one thread, or two with at most 1 preemption", "the duration and memory columns, the number of threads chosen when none is given, larger costs")
prop("P18", c_tsptw, "instances of 3 to 7 nodes with distances satisfying the triangle inequality: for 4 nodes (5 thorough) every distance in [0,100] and every window in [0,800]; for more nodes a part of them, the others drawn at random; tours through up to 6 merges of up to 4 states; whole resolutions of 4 to 6 nodes with 2 to 4 symbolic numbers in small ranges", "larger instances; distances violating the triangle inequality (the model prunes by it); the instance file parser")
prop("P19", c_srflp, "instances of 3 to 7 departments: every flow or every length symbolic in [0,1000] for up to 4 departments ([1,100] for 5), a part of them for more, the others drawn at random; arrangements through up to 5 merges of up to 4 states; whole resolutions of 4 to 6 departments with 2 to 3 symbolic numbers in [0,10]; numbers about 4980 and 100000 that differ by little", "larger instances; flows and lengths symbolic at the same time; the instance file parser")
prop("P20", c_psp, "2 items over 3 periods and 3 items over 2 (4 and 3 thorough): every set of orders, every plan and all costs in [0,1000]; up to 8 periods and 4 items: drawn orders and plans, all costs symbolic (a third of them where minimum spanning trees are computed); plans through merges of up to 4 states at any period; whole resolutions of 4 to 6 periods and 2 or 3 items with 1 to 3 symbolic costs in [0,10]", "larger instances; changeover costs violating the triangle inequality (a unit no merged order asks for is skipped in relaxed diagrams)")
prop("P27", c_parse, "TSPTW files of 1 to 3 nodes: one number of up to 3 digits and a fraction of up to 2 has free digits; SRFLP files of 1 to 4 departments, numbers of up to 5 digits, all free or a part of them; PSP files of 3 or 4 periods and 1 to 3 items, a half or a third of the numbers (of up to 2 digits) free; separators, blank lines, comments, signs and trailing lines drawn", "malformed files; longer numbers; exponents in TSPTW numbers; the command line")
prop("P28", c_again, SOLVE_BOUNDS + "; two to four runs of one solver, each stopped at any of the first 3 to 5 polls or never; also with 2 threads and one preemption on small shapes", OUT_DD)
prop("P22", c_protocol, SOLVE_BOUNDS, OUT_DD)
prop("P23", both(c_dd((0, 1), (0, 1, 2), 4, 5, 6, 7, 8, 9, pre=True), c_ddsweep((0, 1), (0, 1, 2, 2), 200, 4, 5, 6, 7, 8, 9, pre=True, bars=(0, 0, 2), nsym=(1, 2, 2))), DD_BOUNDS + "; one to three earlier compilations of other types on the same diagram", OUT_DD)
prop("P24", c_flags, "every sequence of up to 2 updates (3 thorough) of a node's flags, any combination of flags at once", "longer sequences")
prop("P25", lambda t, s: c_solve((0, 1, 2), 18)(t, s)[::2 if t == "quick" else 1] + c_intr(18)(t, s)[::2 if t == "quick" else 1] + [dict(c, params={**c["params"], MASK: mask(18)}) for c in c_threads(t, s)[:: 2 if t == "quick" else 1]], SOLVE_BOUNDS + "; also interrupted, and with 2 or 3 threads on the smaller shapes", OUT_DD)

