"""Builds the engine, the native replayer and the harness IR from the current /repo tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, ".build")
ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
    CARGO_INCREMENTAL="0",
)
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=1500):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp_ok(name, h, files):
    p = os.path.join(OUT, name + ".stamp")
    return all(os.path.exists(f) for f in files) and os.path.exists(p) and open(p).read() == h


def set_stamp(name, h):
    with open(os.path.join(OUT, name + ".stamp"), "w") as f:
        f.write(h)


def build_engine():
    """the symbolic executor and the native runtime"""
    src = os.path.join(VERIF, "engine")
    exe = os.path.join(OUT, "engine", "release", "vpe")
    h = tree_hash([os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(src, "build.rs")])
    if not stamp_ok("engine", h, [exe]):
        run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(OUT, "engine")], cwd=src)
        set_stamp("engine", h)
    rt = os.path.join(OUT, "vprt")
    cpp = os.path.join(VERIF, "vprt", "vprt.cpp")
    h = tree_hash([cpp])
    if not stamp_ok("vprt", h, [rt]):
        run(["g++", "-O1", "-rdynamic", "-o", rt, cpp, "-ldl", "-lpthread"])
        set_stamp("vprt", h)
    return exe, rt


def repo_hash():
    return tree_hash([os.path.join(REPO, x) for x in ("src", "examples", "Cargo.toml", "Cargo.lock") if os.path.exists(os.path.join(REPO, x))])


def build_harness(name, crate):
    """(IR file, shared object) of harness crate /verif/harness/<name>, always from /repo's current tree"""
    src = os.path.join(VERIF, "harness", name)
    td = os.path.join(OUT, "h-" + name)
    ll = os.path.join(td, "release", "deps", crate + ".ll")
    so = os.path.join(td, "release", "lib" + crate + ".so")
    h = tree_hash([os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(VERIF, "shims"), os.path.join(VERIF, "harness", "core", "src", "vp.rs")]) + repo_hash()
    gen = os.path.join(src, "gen.py")
    if os.path.exists(gen):
        h += tree_hash([gen])
    if stamp_ok("h-" + name, h, [ll, so]):
        return ll, so
    t0 = time.time()
    if os.path.exists(gen):
        run([sys.executable, gen])
    # never trust file times: force the crates that depend on /repo to be rebuilt
    fp = os.path.join(td, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("engineering-") or d.startswith(crate + "-") or d.startswith("parking_lot-"):
                shutil.rmtree(os.path.join(fp, d))
    for f in (ll, so):
        if os.path.exists(f):
            os.remove(f)
    env = dict(ENV)
    env["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp"
    run(["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--", "--emit=llvm-ir"], env=env, cwd=src)
    if not (os.path.exists(ll) and os.path.exists(so)):
        raise BuildError("no IR produced for " + name)
    set_stamp("h-" + name, h)
    print("built harness %s in %.1f s" % (name, time.time() - t0), flush=True)
    return ll, so
