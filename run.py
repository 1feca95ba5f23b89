#!/usr/bin/env python3
"""run.py C01 [...]: decides properties on /repo's current tree. VERIF_TIER (quick|thorough), VERIF_SEED.
Exit 0: held on everything observed. 1: a VIOLATION line was printed. 2: the check itself could not be run."""
import json, os, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{V}/tools")
import build, spec  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1) & 0x7FFFFFFF
THOROUGH = TIER == "thorough"
KNOWN = f"{V}/known_findings.txt"


class CheckError(Exception):
    pass


def known(prop):
    """Lines `finding: property=<id> match=<substring>` name what is known to fail and was not repaired."""
    r = []
    for line in open(KNOWN):
        if line.startswith(f"finding: property={prop} match="):
            r.append(line.split("match=", 1)[1].strip())
    return r


class Result:
    def __init__(self, prop):
        self.prop, self.parts, self.viol = prop, [], []

    def add(self, d, replay):
        self.parts.append(d)
        if d.get("harness_errors") and not d["violations"]:
            raise CheckError(f"harness error in {self.prop}: {d['harness_errors'][0]}")
        for v in d["violations"]:
            self.viol.append(dict(message=v["message"], variant=d["variant"], seed=d["seed"], case=v["case"], replay=replay(v["case"])))


DEATHS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE}


def run(cmd, timeout=None, env=None):
    """subprocess.run with both streams in one, of which the first and the last part are kept: code under test may print without end"""
    with subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env) as p:
        head, tail = bytearray(), bytearray()

        def read():
            while chunk := p.stdout.read1(1 << 16):
                if len(head) < 1 << 20:
                    head.extend(chunk)
                else:
                    tail.extend(chunk)
                    del tail[:-(1 << 20)]

        t = threading.Thread(target=read, daemon=True)
        t.start()
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise
        finally:
            t.join(20)
        return subprocess.CompletedProcess(cmd, p.returncode, bytes(head + tail))


def vmon(res, prop, variant, seed, mult, extra=(), exe=None, env=None, cases=None, limit=800):
    tmp = tempfile.mkdtemp(prefix="vrun")
    out = f"{tmp}/o.json"
    exe = exe or f"{build.B}/{variant}/debug/vmon"
    args = [prop, "--seed", str(seed), "--mult", str(mult)] + (["--thorough"] if THOROUGH else []) + list(extra)
    if cases:
        args += ["--cases", str(cases)]
    try:
        p = run([exe] + args + ["--out", out], env=env, timeout=limit)
        txt = p.stdout.decode(errors="replace")

        def replay(case):
            return f"{exe} {prop} --seed {seed} --first {case} --cases 1" + (" --thorough" if THOROUGH else "")

        if p.returncode == 9 and "HANG " in txt:
            case = int(txt.split("case=")[1].split()[0])
            res.add(empty(prop, variant, seed, [dict(case=case, message="a call did not return within its CPU limit")]), replay)
            return
        if p.returncode < 0 and -p.returncode in DEATHS:
            res.add(empty(prop, variant, seed, [dict(case=-1, message=f"the process died with signal {-p.returncode} in the code under test: {txt[-1500:]}")]),
                    lambda c: " ".join([exe] + args))
            return
        if p.returncode not in (0, 1) and not (p.returncode == 2 and os.path.exists(out)):
            if p.returncode == 66 and "ThreadSanitizer" in txt:
                pass
            else:
                raise CheckError(f"{exe} {' '.join(args)} ended with {p.returncode}: {txt[-2000:]}")
        d = json.load(open(out)) if os.path.exists(out) else empty(prop, variant, seed, [])
        if "WARNING: ThreadSanitizer" in txt or "ERROR: AddressSanitizer" in txt or "runtime error" in txt:
            d["violations"].append(dict(case=-1, message="sanitizer report: " + txt[:4000]))
        d["variant"] = variant
        res.add(d, replay)
    except subprocess.TimeoutExpired:
        raise CheckError(f"{exe} {' '.join(args)} took more than {limit} s")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def empty(prop, variant, seed, violations):
    return dict(property=prop, variant=variant, seed=seed, cases=0, evaluations=0, distinct=0, counters={}, samples=[], violations=violations,
                harness_errors=[], max_error_over_bound=0, wall_s=0)


def builds(jobs):
    with ThreadPoolExecutor(len(jobs)) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def seeds():
    k = 0
    while True:
        yield SEED + 7919 * k
        k += 1


def rust(prop, res):
    if prop in spec.VALUE:
        plan = [("std", spec.VALUE[prop][0]), ("fma", spec.VALUE[prop][1])]
    else:
        plan = [("std", spec.STD[prop])] + ([("rel", spec.REL[prop])] if prop in spec.REL else [])
    if THOROUGH:
        plan = [(v, spec.THOROUGH[prop]) for v in ("std", "fma", "nostd", "rel")]
    builds([lambda v=v: build.harness(v) for v, _ in plan])
    t0 = time.time()
    for seed in seeds():
        for v, m in plan:
            vmon(res, prop, v, seed, m)
            if res.viol:
                return
        if not THOROUGH or time.time() - t0 > spec.THOROUGH_BUDGET:
            break
    if prop == "C18":
        build.harness("o0")
        vmon(res, prop, "o0", SEED, 1, env=dict(os.environ, VMON_UNOPTIMIZED="1"), cases=3000 if THOROUGH else 600)
    if prop == "C15" or THOROUGH and prop == "C14":
        tsan(prop, res)


def tsan(prop, res):
    """The same monitor in a ThreadSanitizer build, where a data race need not show in a result to be seen."""
    try:
        exe = build.sanitized("tsan")
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        # without it the check still has its own oracle; a tree that does not compile fails in the other builds
        print(f"note: no ThreadSanitizer build: {str(e)[-300:]}")
        return
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0")
    probe = subprocess.run([f"{exe}/vmon", "C14", "--cases", "1", "--out", "/dev/null"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b"FATAL: ThreadSanitizer" in probe.stdout:
        print(f"note: ThreadSanitizer does not run here: {probe.stdout[-300:]}")
        return
    for k in range(6 if THOROUGH else 1):
        vmon(res, prop, "tsan", SEED + k, 1, exe=f"{exe}/vmon", env=env, cases=800 if THOROUGH else 200)
        if res.viol:
            return


def cost(prop, res):
    # the clock also watches a build in which the compiler cannot turn a loop into a formula
    builds([lambda: build.harness("std", ("vcost",)), lambda: build.harness("o0", ("vcost",))])
    t0 = time.time()
    def plan():
        for k, s in enumerate(seeds()):
            yield "std", s
            if k == 0:
                yield "o0", s

    for v, seed in plan():
        tmp = tempfile.mkdtemp(prefix="vrun")
        try:
            out = f"{tmp}/o.json"
            rounds = 40 if THOROUGH else 18
            exe = f"{build.B}/{v}/debug/vcost" + (" --clock" if v == "o0" else "")
            p = run(exe.split() + ["--seed", str(seed), "--rounds", str(rounds), "--out", out], timeout=800)
            txt = p.stdout.decode(errors="replace")
            if p.returncode < 0 and -p.returncode in DEATHS:
                res.add(empty(prop, v, seed, [dict(case=-1, message=f"the process died with signal {-p.returncode}: {txt[-1500:]}")]), lambda c: f"{exe} --seed {seed} --rounds {rounds}")
                return
            if not os.path.exists(out):
                raise CheckError(f"vcost ended with {p.returncode}: {txt[-2000:]}")
            d = json.load(open(out))
            d.setdefault("variant", v)
            res.add(d, lambda c: f"{exe} --seed {seed} --rounds {rounds}")
        except subprocess.TimeoutExpired:
            res.add(empty(prop, v, seed, [dict(case=-1, message="the workload, a few seconds of work at the documented cost, did not finish in 800 s")]), lambda c: f"{exe} --seed {seed} --rounds {rounds}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if res.viol or not THOROUGH and v == "o0" or time.time() - t0 > spec.THOROUGH_BUDGET:
            return


def variants(prop, res):
    vs = ["std", "fma", "nostd", "rel"]
    builds([lambda v=v: build.harness(v) for v in vs])
    t0 = time.time()
    cases = 60000
    first = 0
    for seed in seeds():
        tmp = tempfile.mkdtemp(prefix="vrun", dir=build.B)
        try:
            def dump(v):
                p = run([f"{build.B}/{v}/debug/vmon", "dump", "--seed", str(seed), "--first", str(first), "--cases", str(cases), "--out", f"{tmp}/{v}"]
                                   + (["--thorough"] if THOROUGH else []), timeout=800)
                return p.returncode, p.stdout.decode(errors="replace")[-2000:]
            for v, (rc, txt) in zip(vs, builds([lambda v=v: dump(v) for v in vs])):
                if rc < 0 and -rc in DEATHS:
                    res.add(empty(prop, v, seed, [dict(case=-1, message=f"recording in the {v} build died with signal {-rc}: {txt}")]), lambda c: f"{build.B}/{v}/debug/vmon dump --seed {seed} --cases {cases} --out /dev/null")
                    return
                if rc != 0:
                    raise CheckError(f"recording in the {v} build ended with {rc}: {txt}")
            for a, b in (("std", "fma"), ("std", "nostd"), ("std", "rel")):
                p = subprocess.run([f"{build.B}/std/debug/vmon", "compare", "--a", f"{tmp}/{a}", "--b", f"{tmp}/{b}"], stdout=subprocess.PIPE, timeout=800)
                if p.returncode != 0:
                    raise CheckError(f"comparison of {a} and {b} ended with {p.returncode}")
                d = json.loads(p.stdout)
                viol = []
                if d["mismatch"]:
                    viol.append(dict(case=-1, message=f"the logs of {a} and {b} do not correspond: {d['mismatch']}"))
                for case, rec in d["diffs"][:3]:
                    lab = subprocess.run([f"{build.B}/std/debug/vmon", "label", "--seed", str(seed), "--case", str(case), "--record", str(rec)] + (["--thorough"] if THOROUGH else []), stdout=subprocess.PIPE).stdout.decode(errors="replace")
                    got = [subprocess.run([f"{build.B}/{v}/debug/vmon", "label", "--seed", str(seed), "--case", str(case), "--record", str(rec)] + (["--thorough"] if THOROUGH else []), stdout=subprocess.PIPE).stdout.decode(errors="replace").strip()[-600:] for v in (a, b)]
                    viol.append(dict(case=case, message=f"{a} and {b} builds differ at {lab.strip()[:1500]}; {a}: {got[0]}; {b}: {got[1]}"))
                part = empty(prop, f"{a} vs {b}", seed, viol)
                part.update(cases=d["cases"], evaluations=d["records"], distinct=d["identical_required"] + d["within_different_bits"] + d["errors_agree"],
                            max_error_over_bound=d["max_ratio"], counters={k: d[k] for k in ("records", "identical_required", "within", "within_different_bits", "errors_agree", "status_only")},
                            samples=[f"{a} vs {b}: " + subprocess.run([f"{build.B}/std/debug/vmon", "label", "--seed", str(seed), "--case", str(7 + SEED % 50), "--record", "0"], stdout=subprocess.PIPE).stdout.decode(errors="replace").strip()[:500]])
                res.add(part, lambda c: f"{build.B}/<build>/debug/vmon label --seed {seed} --case {c} --record <n>")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if res.viol or not THOROUGH or time.time() - t0 > spec.THOROUGH_BUDGET:
            return


def python(prop, res):
    site = build.pysite()
    env = dict(os.environ, PYTHONPATH=site)
    t0 = time.time()
    for seed in seeds():
        tmp = tempfile.mkdtemp(prefix="vrun")
        try:
            # as usual, and without assert statements (all of C29 are assert statements)
            for opt in ("0", "1") if prop != "C29" else ("0",):
                out = f"{tmp}/o{opt}.json"
                cmd = [build.PY, f"{V}/py/check.py", prop, "--seed", str(seed), "--optimize", opt]
                mult = (4 if THOROUGH else spec.PYMULT.get(prop, 1)) * (0.3 if opt == "1" else 1)
                p = run(cmd + ["--mult", str(mult), "--out", out], env=env, timeout=850)
                if not os.path.exists(out):
                    raise CheckError(f"{cmd} ended with {p.returncode}: {p.stdout.decode(errors='replace')[-2000:]}")
                res.add(json.load(open(out)), lambda c: f"PYTHONPATH={site} {' '.join(cmd)} --first {c} --cases 1 --workers 1")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if res.viol or not THOROUGH or time.time() - t0 > spec.THOROUGH_BUDGET:
            return


def evidence(res, wall, nviol):
    counters, samples, per = {}, [], []
    for d in res.parts:
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in d["samples"]:
            if len(samples) < 6 and s not in samples:
                samples.append(s[:1500])
        per.append({k: d.get(k) for k in ("variant", "seed", "cases", "evaluations", "distinct", "max_error_over_bound", "wall_s")})
    if not samples:
        samples = [v["message"][:1500] for v in res.viol[:3]] or ["(no sample recorded)"]
    # the same signatures recur in another variant or seed: count the largest run, not the sum
    distinct = max([d["distinct"] for d in res.parts] or [0])
    ev = dict(property=res.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration",
              coverage=dict(evaluations=sum(d["evaluations"] for d in res.parts), distinct_nontrivial=distinct, rule=spec.RULE[res.prop], samples=samples,
                            cases=sum(d["cases"] for d in res.parts), observed=counters, runs=per[:60],
                            max_error_over_bound=max([d.get("max_error_over_bound") or 0 for d in res.parts] or [0])),
              assumptions=spec.ASSUME["default"], wall_s=round(wall, 2), violations=nviol)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{res.prop}.json", "w") as f:
        json.dump(ev, f, indent=1)


def check(prop):
    t0 = time.time()
    res = Result(prop)
    if prop == "C19":
        cost(prop, res)
    elif prop == "C21":
        variants(prop, res)
    elif prop in spec.PYTHON:
        python(prop, res)
    else:
        rust(prop, res)
    kn = known(prop)
    fresh, seen = [], []
    for v in res.viol:
        m = next((k for k in kn if k in v["message"]), None)
        (seen if m else fresh).append((m, v))
    evidence(res, time.time() - t0, len(fresh))
    for k in kn:
        hit = [v for m, v in seen if m == k]
        print(f"KNOWN-FINDING: property={prop} {k}" + ("" if hit else " (not met in this run)"))
    tot = sum(d["evaluations"] for d in res.parts)
    print(f"{prop}: {tot} observations in {sum(d['cases'] for d in res.parts)} cases, {time.time()-t0:.1f} s", flush=True)
    if not fresh:
        return 0
    os.makedirs(f"{V}/replays", exist_ok=True)
    path = f"{V}/replays/{prop}-{SEED}.txt"
    with open(path, "w") as f:
        for _, v in fresh:
            f.write(f"property {prop}, variant {v['variant']}, seed {v['seed']}, case {v['case']}\n  {v['message']}\n  replay: {v['replay']}\n\n")
    print(f"  {fresh[0][1]['message'][:2000]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def main():
    rc = 0
    for prop in sys.argv[1:]:
        try:
            rc = max(rc, check(prop))
        except (CheckError, build.BuildError) as e:
            print(f"ERROR in the check of {prop}: {e}", flush=True)
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
