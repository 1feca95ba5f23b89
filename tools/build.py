"""Builds what the checks run, from /repo's current working tree, into /verif/build (offline)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "build")
PY = "/opt/vp/venv/bin/python"


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def rust_hash():
    return tree_hash([f"{REPO}/src", f"{REPO}/Cargo.toml"])


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_OPT_LEVEL", "CARGO_PROFILE_DEV_DEBUG",
              "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS", "CARGO_PROFILE_DEV_INCREMENTAL", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.update(kw)
    return e


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def nostd_tree():
    """The crate offers a cdylib as well as an rlib; a cdylib cannot be linked without std on this host, so the no-std
    variant is built from the same sources through a manifest that asks for the rlib only."""
    c, h = f"{B}/nostd-crate", f"{B}/nostd-harness"
    os.makedirs(c, exist_ok=True)
    os.makedirs(f"{h}/.cargo", exist_ok=True)
    t = open(f"{REPO}/Cargo.toml").read()
    t = re.sub(r"(?m)^crate-type\s*=.*$", 'crate-type = ["rlib"]', t)
    t = re.sub(r"(?ms)^\[\[(bench|example|test|bin)\]\].*?(?=^\[|\Z)", "", t)
    t = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", t)
    t = re.sub(r"(?m)^readme\s*=.*$", "", t)
    write(f"{c}/Cargo.toml", t)
    link(f"{REPO}/src", f"{c}/src")
    t = open(f"{V}/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{c}"')
    write(f"{h}/Cargo.toml", t)
    link(f"{V}/harness/src", f"{h}/src")
    write(f"{h}/.cargo/config.toml", open(f"{V}/harness/.cargo/config.toml").read())
    if not os.path.exists(f"{h}/Cargo.lock"):
        shutil.copy(f"{V}/harness/Cargo.lock", f"{h}/Cargo.lock")
    return h


RELEASE = {"CARGO_PROFILE_DEV_OPT_LEVEL": "3", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}
# variant -> (features, extra environment, toolchain)
VARIANTS = {
    "std": (["std"], {}),
    # the fma build is also one without debug assertions and overflow checks, as a user's release build
    "fma": (["fma"], RELEASE),
    "rel": (["std"], RELEASE),
    "nostd": ([], {}),
    # as a user's debug build compiles it
    "o0": (["std"], {"CARGO_PROFILE_DEV_OPT_LEVEL": "0", "CARGO_PROFILE_DEV_INCREMENTAL": "false"}),
}
TARGET = "x86_64-unknown-linux-gnu"
SANITIZERS = {"tsan": "thread", "asan": "address"}


def stale(target, prof="debug", pkg="interpn", h=None):
    """Cargo looks at modification times; look at the contents as well."""
    h = h or rust_hash()
    st = f"{target}/.stamp"
    if os.path.exists(st) and open(st).read() == h:
        return h
    for f in glob.glob(f"{target}/**/.fingerprint/{pkg}-*", recursive=True):
        shutil.rmtree(f, ignore_errors=True)
    return h


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = f"{B}/.lock-{name}"

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, cwd, e, what, limit=1500):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    if r.returncode != 0:
        raise BuildError(f"{what} failed:\n" + r.stdout.decode(errors="replace")[-6000:])


def harness(variant, bins=("vmon",)):
    """-> directory with the built binaries"""
    target = f"{B}/{variant}"
    with Lock(variant):
        os.makedirs(target, exist_ok=True)
        cwd = nostd_tree() if variant == "nostd" else f"{V}/harness"
        feats, extra = VARIANTS[variant]
        h = stale(target)
        cmd = ["cargo", "build", "--offline"] + (["--features", ",".join(feats)] if feats else [])
        for b in bins:
            cmd += ["--bin", b]
        run(cmd, cwd, env(CARGO_TARGET_DIR=target, **extra), f"build of the {variant} harness")
        open(f"{target}/.stamp", "w").write(h)
    return f"{target}/debug"


def sanitized(variant):
    """-> directory with vmon built, with the standard library, under a sanitizer (nightly)"""
    target = f"{B}/{variant}"
    with Lock(variant):
        os.makedirs(target, exist_ok=True)
        h = stale(target)
        flags = f"-Zsanitizer={SANITIZERS[variant]} -Cunsafe-allow-abi-mismatch=sanitizer"
        run(["cargo", "build", "--offline", "--features", "std", "--bin", "vmon", "--target", TARGET, "-Zbuild-std"], f"{V}/harness",
            env(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", RUSTFLAGS=flags), f"build of the {variant} harness", limit=800)
        open(f"{target}/.stamp", "w").write(h)
    return f"{target}/{TARGET}/debug"


def pysite():
    """-> directory to put on PYTHONPATH so that `import interpn` is /repo's current tree"""
    target, site = f"{B}/pyext", f"{B}/site"
    with Lock("py"):
        os.makedirs(target, exist_ok=True)
        h = stale(target)
        run(["bash", f"{V}/tools/pybuild.sh", target, site], REPO, env(), "build of the Python extension")
        open(f"{target}/.stamp", "w").write(h)
    return site


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    t0 = time.time()
    jobs = {"std": lambda: harness("std", ("vmon", "vcost")), "fma": lambda: harness("fma"), "nostd": lambda: harness("nostd"), "rel": lambda: harness("rel"), "o0": lambda: harness("o0", ("vmon", "vcost")), "python": pysite,
            "tsan": lambda: sanitized("tsan")}
    want = sys.argv[1:] or list(jobs)
    rc = 0
    with ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(jobs[k]) for k in want}
        for k, f in fs.items():
            try:
                f.result()
                print(f"{k}: built after {time.time()-t0:.0f} s", flush=True)
            except BuildError as e:
                print(e)
                rc = 2
    sys.exit(rc)
