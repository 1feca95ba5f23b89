"""C23-C29: the Python API, watched from outside. Every case runs in a worker process, so that a dying interpreter is
seen and attributed to its case.
usage: check.py PROP --seed S --cases N --out FILE [--first K] [--workers W]"""
import hashlib, json, os, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
DEFAULT = {"C23": 24000, "C24": 24000, "C25": 10000, "C26": 6000, "C27": 36000, "C28": 28000, "C29": 16000, "C32": 16000}


class Violation(Exception):
    pass


def bad(msg):
    raise Violation(msg)


# ---------------------------------------------------------------------------------------------------------------
def load():
    global np, ref, interpn, raw, ValidationError, BaseModel
    import numpy as np
    import pyref as ref
    import interpn
    from interpn import raw
    from pydantic import BaseModel, ValidationError


class Ctx:
    def __init__(self):
        self.evals, self.sigs, self.counters, self.samples = 0, set(), {}, []

    def count(self, k, n=1):
        if n:
            self.counters[k] = self.counters.get(k, 0) + n

    def sig(self, *a):
        self.sigs.add(hashlib.sha1(repr(a).encode()).hexdigest()[:16])


METHODS = ["linear", "cubic", "nearest"]
MAXN = {"linear": 8, "cubic": 8, "nearest": 6}
TOL = {"float64": 1e-9, "float32": 2e-3}


def pick(r, xs):
    return xs[int(r.integers(len(xs)))]


def pick_n(r, method, top=None):
    w = np.array([24, 24, 16, 8, 6, 6, 4, 4], float)[: min(MAXN[method], top or 8)]
    return int(r.choice(len(w), p=w / w.sum())) + 1


class Problem:
    """A well-formed grid with values; `grids` are the coordinates in the working dtype."""

    def renewed(self, r, regular):
        """another problem of the same shape"""
        return Problem(r, self.method, self.dtype, regular, self.n, self.dims)

    def nudged(self, r):
        """the same problem but for one inner grid point of some axes (no longer regular) and one value"""
        q = Problem(r, self.method, self.dtype, False, self.n, self.dims)
        q.grids = [g.copy() for g in self.grids]
        q.vals = self.vals.copy()
        for g in q.grids:
            if len(g) > 2 and r.random() < 0.7:
                i = int(r.integers(1, len(g) - 1))
                g[i] += self.dtype.type(r.uniform(-0.4, 0.4)) * min(g[i] - g[i - 1], g[i + 1] - g[i])
        j = int(r.integers(q.vals.size))
        q.vals.reshape(-1)[j] += self.dtype.type(r.normal()) * (1 + abs(q.vals.reshape(-1)[j]))
        return q

    def __init__(self, r, method, dtype, regular, n=None, shape=None):
        self.method, self.dtype, self.regular = method, dtype, regular
        n = n or pick_n(r, method)
        lo = 4 if method == "cubic" else 2
        dims = []
        for a in range(n):
            if n <= 2:
                k = int(r.integers(lo, lo + 12))
            elif n <= 4:
                k = int(r.integers(lo, lo + 4))
            else:
                k = lo + int(r.random() < (0.3 if lo == 2 else 0.0 if n > 6 else 0.1))
            dims.append(k)
        if n == 1 and r.random() < 0.05:
            dims = [int(r.integers(100, 3000)) if r.random() < 0.7 else int(10 ** r.uniform(3.4, 4.3))]
        if n <= 2 and r.random() < 0.008:  # an axis beyond 16 bits
            dims = [4] * n
            dims[int(r.integers(n))] = int(r.integers(66000, 120000))
        if shape is not None:
            dims = list(shape)
        self.n, self.dims = n, dims
        self.starts, self.steps, self.grids = [], [], []
        T = dtype.type
        # the scale of the coordinates: rounding must not depend on it
        top = 6 if dtype == np.float32 else 12
        scale = 1.0 if r.random() < 0.7 else 10.0 ** r.uniform(-top, top)
        for a, k in enumerate(dims):
            if regular:
                style = int(r.integers(3)) if k < 50 or dtype == np.float64 else 0
                if style == 0:  # exact in either dtype
                    s, h = float(r.integers(-20, 20)), 2.0 ** int(r.integers(-3, 4))
                elif style == 1:
                    s, h = float(r.uniform(-50, 50)) * scale, float(r.uniform(0.2, 5)) * scale
                else:
                    s, h = 0.0, float(r.uniform(0.01, 3)) * scale
                s, h = T(s), T(h)
                g = (s.astype(np.longdouble) + h.astype(np.longdouble) * np.arange(k)).astype(dtype)
                self.starts.append(s)
                self.steps.append(h)
            else:
                style = r.random()
                if k > 20000:  # exact in either dtype
                    d, scale = r.integers(1, 4, k - 1), 1.0
                    if style < 0.6:  # even but for one cell, anywhere
                        d[:] = 1
                        d[pick(r, [k - 2, 0, int(r.integers(k - 1)), int(r.integers(k // 2, k - 1))])] = int(r.integers(2, 5))
                elif style < 0.6:
                    d = r.uniform(0.3, 3, k - 1) * (10 ** r.uniform(-1, 1))
                elif style < 0.68:  # nearly even: every cell differs by a little
                    d = r.uniform(0.3, 3) * (1 + r.uniform(-1, 1, k - 1) * 10 ** r.uniform(-2.0 if dtype == np.float32 else -6.0, -0.7))
                elif style < 0.78:  # nearly even: one cell differs by a little
                    d = np.full(k - 1, r.uniform(0.3, 3))
                    lo_e = -2.0 if dtype == np.float32 else -6.0
                    d[pick(r, [0, k - 2, int(r.integers(k - 1))])] *= 1 + 10 ** r.uniform(lo_e, -0.5)
                elif style < 0.9:  # even at the ends, uneven between them
                    d = np.full(k - 1, r.uniform(0.3, 3))
                    if k > 3:
                        d[1:-1] *= r.uniform(0.4, 2.5, k - 3)
                else:  # even
                    d = np.full(k - 1, r.uniform(0.3, 3))
                first = float(r.uniform(-20, 20)) if k <= 20000 else float(r.integers(-20, 20))
                g = ((first + np.concatenate([[0], np.cumsum(d)])) * scale).astype(dtype)
            self.grids.append(g)
        self.starts = np.array(self.starts, dtype=dtype)
        self.steps = np.array(self.steps, dtype=dtype)
        v = r.normal(size=dims) * 10 ** r.uniform(-3, 3)
        if r.random() < 0.1:
            v = np.round(v)
        self.vals = v.astype(dtype)

    def nodes(self, a):
        if self.regular:
            return self.starts[a].astype(np.longdouble) + self.steps[a].astype(np.longdouble) * np.arange(self.dims[a])
        return self.grids[a].astype(np.longdouble)

    def coords(self, r, a, count, where="any"):
        """coordinates clear of every point where rounding decides (cell boundaries, midpoints), or exactly stored ones"""
        g = self.nodes(a)
        k = len(g)
        span = float(g[-1] - g[0]) * min(1.0, 1000.0 / k)
        x = np.empty(count)
        for j in range(count):
            q = r.random()
            if where == "inside":
                q *= 0.75
            if q < 0.65:
                i = int(r.integers(k - 1)) if r.random() < 0.7 else pick(r, [0, k - 2])
                t = pick(r, [r.uniform(0.02, 0.48), r.uniform(0.52, 0.98)])
                if r.random() < 0.15:  # close to a midpoint or a grid point, but further off than rounding reaches
                    off = 16 * min(k, 1000) * float(np.finfo(self.dtype).eps) * float(max(abs(g[0]), abs(g[-1])) / (g[i + 1] - g[i]))
                    off = max(off, 10 ** r.uniform(-9, -1.7))
                    if off < 0.02:
                        t = pick(r, [0.5 - off, 0.5 + off, off, 1 - off])
                x[j] = float(g[i] + t * (g[i + 1] - g[i]))
            elif q < 0.75 and not self.regular:
                x[j] = float(g[pick(r, [0, k - 1, int(r.integers(k))])])
            elif q < 0.75:
                x[j] = float(g[0] + 0.3 * (g[1] - g[0]))
            else:
                d = span * r.uniform(0.03, 2) if r.random() < 0.8 else float(g[1] - g[0]) * 0.05
                x[j] = float(g[0]) - d if r.random() < 0.5 else float(g[-1]) + d
        return x.astype(self.dtype)

    def obs(self, r, count, where="any"):
        if count > 64:  # a few points, repeated in a random order
            base, idx = self.obs(r, 40, where), r.integers(40, size=count)
            return [b[idx] for b in base]
        return [self.coords(r, a, count, where) for a in range(self.n)]

    def want(self, cols, linearize=True):
        gs = [self.nodes(a) for a in range(self.n)]
        return ref.many(gs, self.vals, cols, self.method, linearize)

    def describe(self):
        return f"{self.method} {'regular' if self.regular else 'rectilinear'} {self.dtype} dims={self.dims}"


def npoints(r, p):
    if p.method == "cubic" and p.n >= 6:
        return int(r.integers(1, 4))
    if p.n >= 5:
        return int(r.integers(1, 8))
    if p.n <= 2 and r.random() < 0.0015:
        return pick(r, [16384, 65535, 65536, 65537, 100_001, 131_072])
    if p.n <= 3 and r.random() < 0.03:
        return pick(r, [64, 65, 128, 255, 256, 300, 1024, 4100])
    return pick(r, [1, 1, 2, 3, 4, 5, 7, 12, 20])


def compare(p, got, want, mag, what, cols):
    """got against the reference; mag bounds the terms summed"""
    if p.method == "nearest":
        ok = np.asarray(got).view(np.uint8).tobytes() == want.view(np.uint8).tobytes()
        if not ok:
            k = int(np.argmax(got != want))
            bad(f"{what}: got {got[k]!r}, want the stored value {want[k]!r} at {[c[k] for c in cols]} ({p.describe()})")
        return
    tol = TOL[str(p.dtype)] * (mag + np.max(np.abs(p.vals)).astype(np.longdouble))
    d = np.abs(got.astype(np.longdouble) - want)
    if not np.all(d <= tol):
        k = int(np.argmax(~(d <= tol)))
        bad(f"{what}: got {got[k]!r}, want {float(want[k])!r} +- {float(tol[k]):.3g} at {[float(c[k]) for c in cols]} ({p.describe()})")


# ---- array layouts --------------------------------------------------------------------------------------------
LAYOUTS = ["C", "F", "strided", "reversed", "offset", "readonly", "subset"]


def tied(r, p, k, contiguous):
    """Observation columns that are the very same objects as each other or as the grid, that repeat one number
    without storing it, or that are a user's array subclass. -> (columns, equal plain columns, what was done)"""
    own = p.obs(r, k)
    pool = [("column %d" % a, x) for a, x in enumerate(own)]
    pool += [("grid %d" % a, g) for a, g in enumerate(p.grids) if len(g) == k]
    pool += [("start of grid %d" % a, g[:k]) for a, g in enumerate(p.grids) if len(g) > k]
    if p.vals.size == k:
        pool.append(("values", p.vals.reshape(-1)))
    if not contiguous or k == 1:
        pool.append(("one number", np.broadcast_to(own[0][:1], (k,))))
    pool.append(("subclass", own[-1].view(type("Sub", (np.ndarray,), {}))))
    ro = own[0].copy()
    ro.flags.writeable = False
    pool.append(("read-only", ro))
    pool = [x for x in pool if np.all(np.isfinite(x[1]))]
    same = r.random() < 0.5
    first = pick(r, pool)
    chosen = [first if same else pick(r, pool) for _ in range(p.n)]
    return [x for _, x in chosen], [np.array(x, order="C", subok=False) for _, x in chosen], [w for w, _ in chosen]


def tie_grids(r, p):
    """make some axes of a rectilinear or regular problem equal; the grids are then one object"""
    a = int(np.argmin(p.dims)) if r.random() < 0.7 else int(r.integers(p.n))
    if p.n > 1:
        dims = list(p.dims)
        long = p.grids[a]
        for b in range(p.n):
            if r.random() < 0.7 and (p.n <= 2 or dims[a] <= dims[b]) and np.prod(dims) < 1e5:
                cut = dims[b] < len(long)
                p.grids[b] = long[: dims[b]] if cut else long
                dims[b] = len(p.grids[b])
                if p.regular:
                    p.starts[b], p.steps[b] = p.starts[a], p.steps[a]
        p.vals = r.normal(size=dims).astype(p.dtype)
        p.dims = type(p.dims)(dims)
    elif r.random() < 0.5:
        p.vals = p.grids[0]


def lay(r, a, layout=None):
    """the same array in another memory layout; -> (view, the buffer behind it)"""
    layout = layout or pick(r, LAYOUTS)
    if a.ndim == 0 or layout == "C":
        return np.array(a, order="C"), None
    if layout == "F":
        return np.array(a, order="F"), None
    if layout == "readonly":
        b = np.array(a, order="C")
        b.flags.writeable = False
        return b, None
    if layout == "strided":
        k = int(r.integers(2, 4))
        buf = np.full(a.shape[:-1] + (a.shape[-1] * k,), 77, dtype=a.dtype)
        v = buf[..., ::k]
        v[...] = a
        return v, buf
    if layout == "reversed":
        ax = tuple(slice(None, None, -1) for _ in a.shape)
        buf = np.array(a[ax], order="C")
        return buf[ax], buf
    if layout == "offset":
        buf = np.full(a.size + 11, 77, dtype=a.dtype)
        v = buf[5 : 5 + a.size].reshape(a.shape)
        v[...] = a
        return v, buf
    if layout == "subset":
        buf = np.full(tuple(s + 2 for s in a.shape), 77, dtype=a.dtype)
        v = buf[tuple(slice(1, s + 1) for s in a.shape)]
        v[...] = a
        return v, buf
    raise AssertionError(layout)


def fingerprint(arrs):
    return [(a.shape, a.dtype.str, a.strides, a.tobytes()) for a in arrs]


SHAPES = {1: [(1,), (), (1, 1)], 12: [(12,), (3, 4), (2, 2, 3), (12, 1)], 20: [(20,), (4, 5)], 4: [(4,), (2, 2)], 7: [(7,), (1, 7)],
    64: [(64,), (8, 8), (4, 4, 4)], 128: [(128,), (16, 8), (2, 64)], 256: [(256,), (16, 16), (1, 256, 1)], 300: [(300,), (15, 20), (3, 10, 10)],
    1024: [(1024,), (32, 32), (2, 512)], 4100: [(4100,), (41, 100)]}


def shaped(r, cols):
    k = len(cols[0])
    s = pick(r, SHAPES.get(k, [(k,), (k, 1)]))
    if r.random() < 0.3:  # the others in shapes of their own
        return [cols[0].reshape(s)] + [c.reshape(pick(r, SHAPES.get(k, [(k,), (k, 1)]))) for c in cols[1:]], s
    return [c.reshape(s) for c in cols], s


def bits_equal(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def kw_of(r, p):
    kw = {}
    lin = True
    if p.method != "linear" or r.random() < 0.5:
        kw["method"] = p.method
    if r.random() < 0.6:
        lin = bool(r.random() < 0.5)
        kw["linearize_extrapolation"] = lin
    return kw, lin


def new_problem(r, top=None):
    method = pick(r, METHODS)
    dtype = np.dtype(pick(r, ["float64", "float32"]))
    n = pick_n(r, method, top)
    return Problem(r, method, dtype, bool(r.random() < 0.5), n)


def fine_bounds(r, p, cols, tol, given):
    """Moves some points to just about the tolerance outside an edge, where it is clear on which side they are.
    cols: points inside; given: the edges are the coordinates as given, not recovered from a step. -> flag per axis"""
    T, eps = p.dtype.type, np.longdouble(np.finfo(p.dtype).eps)
    tol = np.longdouble(tol)
    flags = [False] * p.n
    for a in range(p.n):
        if r.random() < 0.5:
            continue
        g = p.grids[a].astype(np.longdouble) if given else p.nodes(a)
        high = bool(r.random() < 0.5)
        edge = g[-1] if high else g[0]
        if tol > 0 and r.random() < 0.8:
            d = tol * np.longdouble(1 + (1 if r.random() < 0.5 else -1) * 10 ** r.uniform(-4, 0))
        else:
            d = tol + np.longdouble(np.spacing(T(abs(edge)))) * np.longdouble(10 ** r.uniform(0, 6))
        x = T(edge + d if high else edge - d)
        beyond = (np.longdouble(x) - edge) * (1 if high else -1)
        slack = eps * 4 * tol
        if tol > 0:
            slack += eps * 4 * abs(edge)
        if high and not given:
            slack += eps * 4 * (abs(edge) + abs(g[0]))
        if beyond > tol + slack:
            flags[a] = True
        elif beyond > tol - slack and (beyond > 0 or (high and not given)):
            continue
        cols[a][int(r.integers(len(cols[a])))] = x
    return flags


# ---- C23 ------------------------------------------------------------------------------------------------------
def c23(c, r):
    p = new_problem(r)
    cols = p.obs(r, npoints(r, p))
    kw, lin = kw_of(r, p)
    obs, shape = shaped(r, cols)
    plain = r.random() < 0.3
    L = (lambda a: lay(r, a, "C")[0]) if plain else (lambda a: lay(r, a)[0])
    args = ([L(o) for o in obs], [L(g if r.random() < 0.8 else g.reshape(1, -1)) for g in p.grids], L(p.vals if r.random() < 0.7 else p.vals.reshape(-1)))
    if r.random() < 0.3:
        args = (tuple(args[0]), tuple(args[1]), args[2])
    before = fingerprint(list(args[0]) + list(args[1]) + [args[2]])
    what = f"interpn(obs of shape {shape}, {kw})"
    if p.regular and r.random() < 0.5:
        kw["assume_regular"] = True
    got = interpn.interpn(*args, **kw)
    returned, got = got, got.copy()
    c.evals += 1
    if fingerprint(list(args[0]) + list(args[1]) + [args[2]]) != before:
        bad(f"{what}: an input array was modified ({p.describe()})")
    if got.shape != shape or got.dtype != p.dtype:
        bad(f"{what}: result has shape {got.shape} and dtype {got.dtype} ({p.describe()})")
    # what is evaluated is the grid as given: the reference takes the coordinates of the arrays
    want, mag = ref.many([g for g in p.grids], p.vals, cols, p.method, lin)
    compare(p, got.reshape(-1), want, mag, what, cols)
    # the layout does not matter
    again = interpn.interpn([np.ascontiguousarray(x) for x in cols], p.grids, p.vals.reshape(-1), **kw)
    if not bits_equal(again, np.ascontiguousarray(got).reshape(-1)):
        bad(f"{what}: the result depends on the layout of the arrays ({p.describe()})")
    c.evals += 1
    # other data in the very same arrays: nothing may be remembered from the call before
    if r.random() < 0.35:
        vals = args[2]
        mutable = all(a.flags.writeable for a in (*args[0], *args[1], vals))
        if mutable:
            q = p.renewed(r, regular=p.regular and bool(r.random() < 0.3)) if r.random() < 0.5 else p.nudged(r)
            cols2 = q.obs(r, len(cols[0]))
            fresh = interpn.interpn([x.copy() for x in cols2], [g.copy() for g in q.grids], q.vals.copy(), **{k: v for k, v in kw.items() if k != "assume_regular" or q.regular})
            for a, b in zip(args[0], cols2):
                a[...] = b.reshape(a.shape)
            for a, b in zip(args[1], q.grids):
                a[...] = b.reshape(a.shape)
            vals[...] = q.vals.reshape(vals.shape)
            kw2 = dict(kw)
            if not q.regular:
                kw2.pop("assume_regular", None)
            got2 = interpn.interpn(*args, **kw2)
            c.evals += 2
            want2, mag2 = ref.many(list(q.grids), q.vals, cols2, q.method, lin)
            compare(q, got2.reshape(-1), want2, mag2, what + " again after changing the arrays in place", cols2)
            if not bits_equal(fresh, np.ascontiguousarray(got2).reshape(-1)):
                bad(f"{what}: the result depends on what the same arrays held in an earlier call ({q.describe()})")
            c.count("arrays_changed_in_place")
    # the same grid, treated as regular or not
    if p.regular:
        kw2 = dict(kw)
        if "assume_regular" in kw2:
            del kw2["assume_regular"]
        else:
            kw2["assume_regular"] = True
        other = interpn.interpn(cols, p.grids, p.vals, **kw2)
        compare(p, other, want, mag, f"interpn({kw2})", cols)
        c.evals += 1
        c.count("regular_both_ways")
    if r.random() < 0.5:
        elsewhere = p.obs(r, len(cols[0]))
        interpn.interpn([x.reshape(shape) for x in elsewhere], p.grids, p.vals, **kw)
        c.evals += 1
    if not bits_equal(returned, got):
        bad(f"{what}: the array it returned was changed by later calls ({p.describe()})")
    # one object in several places
    if r.random() < 0.25:
        q = Problem(r, p.method, p.dtype, p.regular, p.n)
        if r.random() < 0.6:
            tie_grids(r, q)
        k = pick(r, [1, 3, q.dims[0], q.dims[-1]]) if q.dims[0] < 100 else 3
        x, plain_x, how = tied(r, q, k, False)
        kw2 = {k_: v for k_, v in kw.items() if k_ != "assume_regular"}
        tied_got = interpn.interpn(x, q.grids, q.vals, **kw2)
        alone = interpn.interpn(plain_x, [g.copy() for g in q.grids], q.vals.copy(), **kw2)
        c.evals += 2
        if np.asarray(tied_got).tobytes() != alone.tobytes() or tied_got.shape != (k,):
            bad(f"interpn with points {how}: {tied_got.tolist()}, with equal plain arrays {alone.tolist()} ({q.describe()})")
        c.count("one_object_in_several_places")
    if r.random() < 0.1:
        no_points(c, r, p, kw)
    c.count(f"{p.n}d")
    c.sig(p.method, str(p.dtype), p.regular, p.n, len(shape), sorted(kw), lin, [a.flags.c_contiguous for a in args[0]], args[2].flags.c_contiguous)
    if len(c.samples) < 2:
        c.samples.append(f"{what} of {p.describe()} at {[float(x[0]) for x in cols]} -> {float(got.reshape(-1)[0])!r}")


EMPTY = [(0,), (0, 3), (2, 0), (1, 0, 4)]


def no_points(c, r, p, kw):
    """no observation points at all: an empty result of the right shape and dtype, bounds respected, out= returned"""
    shape = pick(r, EMPTY)
    kw = {k: v for k, v in kw.items() if k != "check_bounds"}
    if r.random() < 0.5:
        kw["check_bounds"] = True
    obs = [lay(r, np.zeros(shape, dtype=p.dtype), pick(r, ["C", "F", "readonly"]))[0] for _ in range(p.n)]
    what = f"interpn of no points (shape {shape}, {kw})"
    got = interpn.interpn(obs, p.grids, p.vals, **kw)
    c.evals += 1
    if got.shape != shape or got.dtype != p.dtype:
        bad(f"{what}: result has shape {got.shape} and dtype {got.dtype} ({p.describe()})")
    out = np.zeros(pick(r, EMPTY), dtype=p.dtype)
    got = interpn.interpn(obs, p.grids, p.vals, out=out, **kw)
    c.evals += 1
    if got is not out and not (got.shape == out.shape and got.dtype == out.dtype):
        bad(f"{what}: out= of shape {out.shape} gives shape {got.shape} and dtype {got.dtype} ({p.describe()})")
    c.count("calls_without_points", 2)


def interpn_or_error(xs, gs, vals, kw):
    try:
        return interpn.interpn(xs, gs, vals, **kw).tobytes()
    except (ValueError, AssertionError) as e:
        return f"{type(e).__name__}: {e}"


def shorten(x):
    return x if isinstance(x, str) else f"{len(x)} bytes {x[:64].hex()}"


# ---- C24 ------------------------------------------------------------------------------------------------------
def c24(c, r):
    p = new_problem(r)
    k = npoints(r, p)
    inside = r.random() < 0.5
    cols = p.obs(r, k, "inside" if inside else "any")
    kw, lin = kw_of(r, p)
    obs, shape = shaped(r, cols)
    want, mag = ref.many(p.grids, p.vals, cols, p.method, lin)
    # out=
    shp = shape if r.random() < 0.6 else pick(r, SHAPES.get(k, [(k,)]))
    fill = pick(r, [0.0, np.nan, -3.5])
    layout = pick(r, [x for x in LAYOUTS if x != "readonly"])
    out, buf = lay(r, np.full(shp, fill, dtype=p.dtype), layout)
    if buf is not None:
        mask = np.ones(buf.shape, dtype=bool)
        # the cells of the buffer that are not the output
        probe = buf.copy()
        out[...] = 0
        a = buf.copy()
        out[...] = 1
        mask = a == buf
        buf[...] = probe
    what = f"interpn(out={layout} {shp}, obs of shape {shape}, {kw})"
    got = interpn.interpn([lay(r, o)[0] for o in obs], p.grids, p.vals, out=out, **kw)
    c.evals += 1
    compare(p, np.ascontiguousarray(out).reshape(-1), want, mag, what + ": in the supplied array", cols)
    if got.size != k:
        bad(f"{what}: returned {got.size} results for {k} points")
    if not bits_equal(np.ascontiguousarray(got).reshape(-1), np.ascontiguousarray(out).reshape(-1)):
        bad(f"{what}: what is returned differs from what was written ({p.describe()})")
    if buf is not None and not np.array_equal(buf[mask], probe[mask]):
        bad(f"{what}: wrote outside the supplied array ({p.describe()})")
    plain = interpn.interpn(cols, p.grids, p.vals, **kw)
    if not bits_equal(plain, np.ascontiguousarray(out).reshape(-1)):
        bad(f"{what}: results differ from a call without out= ({p.describe()})")
    c.count(f"out_{layout}")
    # check_bounds=
    lo = [float(p.nodes(a)[0]) for a in range(p.n)]
    hi = [float(p.nodes(a)[-1]) for a in range(p.n)]
    atol = pick(r, [None, 0.0, 1e-8, float(r.uniform(0.01, 1)), float(r.uniform(1, 50))])
    tol = 1e-8 if atol is None else atol
    kw2 = dict(kw, check_bounds=True)
    if atol is not None:
        kw2["bounds_atol"] = atol
    cols2 = [x.copy() for x in (cols if inside else p.obs(r, k, "inside"))]
    # exactly on the edge is inside
    if r.random() < 0.4:
        a = int(r.integers(p.n))
        cols2[a][int(r.integers(k))] = pick(r, [p.grids[a][0], p.grids[a][-1]])
    viol = bool(r.random() < 0.6)
    if r.random() < 0.5:
        viol = any(fine_bounds(r, p, cols2, tol, True))
        c.count("bounds_near_tolerance")
    elif viol:
        for a in [int(r.integers(p.n))] if r.random() < 0.8 else range(p.n):
            d = tol + max(abs(lo[a]), abs(hi[a]), 1.0) * pick(r, [1e-3, 0.1, 2.0]) + 0.01 * (hi[a] - lo[a])
            cols2[a][pick(r, [0, k - 1, int(r.integers(k))])] = lo[a] - d if r.random() < 0.5 else hi[a] + d
    elif tol > 0.005 and r.random() < 0.7:
        a = int(r.integers(p.n))
        d = 0.9 * tol
        if d > 1e-3 * max(abs(lo[a]), abs(hi[a]), tol):
            cols2[a][int(r.integers(k))] = lo[a] - d if r.random() < 0.5 else hi[a] + d
    obs2, shape2 = shaped(r, cols2)
    out2 = np.full(k, 12345.0, dtype=p.dtype)
    use_out = r.random() < 0.3
    what = f"interpn(obs of shape {shape2}, {kw2})"
    try:
        got = interpn.interpn([lay(r, o)[0] for o in obs2], p.grids, p.vals, out=out2 if use_out else None, **kw2)
        raised = False
    except ValueError:
        raised = True
    c.evals += 1
    if raised != viol:
        bad(f"{what}: {'raised' if raised else 'no error'} for coordinates {[x.tolist() for x in cols2]} on edges {list(zip(lo, hi))} ({p.describe()})")
    if raised and use_out and not np.all(out2 == 12345.0):
        bad(f"{what}: a refused call changed its output")
    if not raised:
        plain = interpn.interpn(cols2, p.grids, p.vals, **kw)
        if not bits_equal(np.ascontiguousarray(got).reshape(-1), plain):
            bad(f"{what}: checking bounds changes the results ({p.describe()})")
    c.count("bounds_raised" if raised else "bounds_passed")
    # the very same arrays, moved in or out of the grid in place, or the grid moved under them
    if r.random() < 0.5:
        xs, gs = [x.copy() for x in cols2], [g.copy() for g in p.grids]
        for _ in range(2):
            interpn_or_error(xs, gs, p.vals, kw2)
            a = int(r.integers(p.n))
            if r.random() < 0.7:
                i = int(r.integers(k))
                d = tol * 2 + max(abs(lo[a]), abs(hi[a]), 1.0) * 0.1 + 0.01 * (hi[a] - lo[a])
                xs[a][i] = pick(r, [lo[a] - d, hi[a] + d, gs[a][len(gs[a]) // 2], gs[a][0]])
            else:
                # same spacing, somewhere else
                gs[a] += p.dtype.type(pick(r, [-1, 1]) * 2.0 ** np.ceil(np.log2(hi[a] - lo[a] + tol + 1)))
                if not np.all(np.diff(gs[a]) > 0):
                    break
            fresh = interpn_or_error([x.copy() for x in xs], [g.copy() for g in gs], p.vals.copy(), kw2)
            same = interpn_or_error(xs, gs, p.vals, kw2)
            c.evals += 3
            if fresh != same:
                bad(f"interpn({kw2}) on arrays changed in place gives {shorten(same)}, on copies of them {shorten(fresh)}: coordinates {[x.tolist() for x in xs]}, {p.describe()}")
            c.count("bounds_again_after_change")
    c.sig(p.method, str(p.dtype), p.regular, p.n, layout, len(shp), raised, atol is None, atol == 0, k)
    if len(c.samples) < 2:
        c.samples.append(what + f" raised={raised} {p.describe()}")


# ---- interpolator objects -------------------------------------------------------------------------------------
def cls_of(p):
    name = {"linear": "Multilinear", "cubic": "Multicubic", "nearest": "Nearest"}[p.method] + ("Regular" if p.regular else "Rectilinear")
    return getattr(interpn, name)


def arr_cls(dtype):
    from interpn.serialization import ArrayF32, ArrayF64

    return ArrayF64 if dtype == np.float64 else ArrayF32


def construct(r, p, lin, direct=None, L=lambda a: a):
    """-> (object, the arrays it was built from)"""
    cls = cls_of(p)
    direct = r.random() < 0.4 if direct is None else direct
    extra = {}
    if p.method == "cubic" and (lin is not True or r.random() < 0.7 or direct):
        extra["linearize_extrapolation"] = lin
    if direct:
        A = arr_cls(p.dtype)
        vals = p.vals.reshape(-1).copy()
        if p.regular:
            src = [p.starts.copy(), p.steps.copy(), vals]
            dims = list(p.dims)
            return cls(dims=dims, starts=A(data=src[0]), steps=A(data=src[1]), vals=A(data=vals), **extra), src, dims
        src = [g.copy() for g in p.grids] + [vals]
        return cls(grids=[A(data=g) for g in src[:-1]], vals=A(data=vals), **extra), src, None
    vals = L(p.vals.copy())
    if p.regular:
        src = [L(p.starts.copy()), L(p.steps.copy()), vals]
        dims = list(p.dims)
        return cls.new(dims, src[0], src[1], vals, **extra), src, dims
    src = [L(g.copy()) for g in p.grids] + [vals]
    return cls.new(src[:-1], vals, **extra), src, None


def c25(c, r):
    p = new_problem(r)
    lin = bool(r.random() < 0.5) if p.method == "cubic" else True
    it, src, dims = construct(r, p, lin)
    name = type(it).__name__
    if type(it) is not cls_of(p):
        bad(f"constructing {cls_of(p).__name__} gives a {name}")
    k = npoints(r, p)
    cols = p.obs(r, k)
    want, mag = p.want(cols, lin)
    json0 = it.model_dump_json()
    fp = fingerprint(cols)
    first = it.eval(cols)
    given_out = first
    first = first.copy()  # what it held when it was returned
    what = f"{name}.eval"
    c.evals += 1
    if first.shape != cols[0].shape or first.dtype != p.dtype:
        bad(f"{what}: result has shape {first.shape} and dtype {first.dtype} ({p.describe()})")
    compare(p, first, want, mag, what, cols)
    # the other ways to ask
    for how in ("eval out", "eval_unchecked", "eval_unchecked out", "tuple"):
        big = np.full(k + 8, -9.5, dtype=p.dtype)
        out = big[4 : 4 + k]
        if how == "eval out":
            g = it.eval(cols, out)
        elif how == "eval_unchecked":
            g = it.eval_unchecked(cols)
        elif how == "eval_unchecked out":
            g = it.eval_unchecked(cols, out=out)
        else:
            g = it.eval(tuple(cols), out=None)
        c.evals += 1
        if not bits_equal(g, first):
            bad(f"{name}.{how}: {g.tolist()} where eval gave {first.tolist()} ({p.describe()})")
        if how.endswith("out"):
            if not bits_equal(out, first):
                bad(f"{name}.{how}: the supplied array holds {out.tolist()}, eval gave {first.tolist()} ({p.describe()})")
            if not (np.all(big[:4] == -9.5) and np.all(big[4 + k :] == -9.5)):
                bad(f"{name}.{how}: wrote outside the output ({p.describe()})")
    if fingerprint(cols) != fp:
        bad(f"{name}: evaluating modified the observation points ({p.describe()})")
    # other points in the very same arrays, with another object of the class used in between
    if r.random() < 0.3:
        q = p.renewed(r, p.regular)
        other, _, _ = construct(r, q, lin)
        both = [x.copy() for x in cols]
        out = np.full(k, -9.5, dtype=p.dtype)
        for turn in range(2):
            new = p.obs(r, k)
            w2, m2 = p.want(new, lin)
            for a, b in zip(both, new):
                a[...] = b
            g = it.eval(both, out) if r.random() < 0.5 else it.eval(both)
            compare(p, g, w2, m2, f"{name}.eval of the same arrays holding other points", both)
            new = q.obs(r, k)
            wq, mq = q.want(new, lin)
            for a, b in zip(both, new):
                a[...] = b
            compare(q, other.eval(both), wq, mq, f"{name}.eval of the same arrays by another object", both)
            c.evals += 2
        if not bits_equal(it.eval(cols), first):
            bad(f"{name}: results change with use ({p.describe()})")
        c.count("histories")
    # several threads on the same object and the same points
    if r.random() < 0.03:
        from concurrent.futures import ThreadPoolExecutor

        reps = max(1, (400 if p.n <= 2 else 40 if p.n <= 4 else 4) // k)
        big = [np.tile(x, reps) for x in cols]

        def work(j):
            out = np.full(len(big[0]), -9.5, dtype=p.dtype)
            return [it.eval(big, out).copy() if q % 2 else it.eval_unchecked(big).copy() for q in range(4)]

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            with ThreadPoolExecutor(4) as ex:
                res = [f.result() for f in [ex.submit(work, j) for j in range(4)]]
        finally:
            sys.setswitchinterval(old)
        w = np.tile(first, reps)
        for g in (x for y in res for x in y):
            c.evals += 1
            if not bits_equal(g, w):
                bad(f"{name}: results differ when several threads evaluate it ({p.describe()})")
        c.count("evaluations_in_threads", 16)
    # bounds
    lo = [float(p.nodes(a)[0]) for a in range(p.n)]
    hi = [float(p.nodes(a)[-1]) for a in range(p.n)]
    atol = pick(r, [0.0, 1e-8, float(r.uniform(0.01, 5))])
    flags = []
    bcols = p.obs(r, k, "inside")
    fine = bool(r.random() < 0.5)
    if fine:
        flags = fine_bounds(r, p, bcols, atol, not p.regular)
    for a in range(0 if fine else p.n):
        f = r.random() < 0.4
        if f:
            d = atol + max(abs(lo[a]), abs(hi[a]), 1.0) * pick(r, [1e-3, 0.3, 3.0]) + 0.01 * (hi[a] - lo[a])
            bcols[a][int(r.integers(k))] = lo[a] - d if r.random() < 0.5 else hi[a] + d
        flags.append(bool(f))
    shaped_obs, _ = shaped(r, bcols)
    got = it.check_bounds([lay(r, o)[0] for o in shaped_obs], atol)
    c.evals += 1
    if got.dtype != bool or got.shape != (p.n,) or got.tolist() != flags:
        bad(f"{name}.check_bounds(atol={atol}): {got.tolist()} (shape {got.shape}), expected {flags} for {[x.tolist() for x in bcols]}, edges {list(zip(lo, hi))} ({p.describe()})")
    # no points at all
    if r.random() < 0.1:
        none = [np.zeros(0, dtype=p.dtype) for _ in range(p.n)]
        for g in (it.eval(none), it.eval_unchecked(none), it.eval(none, np.zeros(0, dtype=p.dtype))):
            c.evals += 1
            if g.shape != (0,) or g.dtype != p.dtype:
                bad(f"{name}: evaluating no points gives shape {g.shape} and dtype {g.dtype} ({p.describe()})")
        got = it.check_bounds(none, atol)
        if got.dtype != bool or got.tolist() != [False] * p.n:
            bad(f"{name}.check_bounds of no points: {got.tolist()} ({p.describe()})")
        c.count("calls_without_points", 4)
    # isolation
    for a in src:
        if a.flags.writeable:
            a[...] = pick(r, [0, 1e6, np.nan])
    if dims is not None:
        dims[0] = 99
    g = it.eval(cols)
    if not bits_equal(g, first):
        bad(f"{name}: changing the arrays it was built from changes its results ({p.describe()})")
    # one evaluation, then one of other points: the first result must survive the second
    it.eval(p.obs(r, k))
    if not bits_equal(g, first):
        bad(f"{name}: an array returned by eval was changed by the next evaluation ({p.describe()})")
    if it.model_dump_json() != json0:
        bad(f"{name}: its state changed by use or through the arrays it was built from ({p.describe()})")
    if not bits_equal(given_out, first):
        bad(f"{name}: an array returned by eval was changed by later evaluations ({p.describe()})")
    for f in type(it).model_fields:
        try:
            setattr(it, f, getattr(it, f))
            bad(f"{name}.{f} can be reassigned")
        except ValidationError:
            pass
        c.evals += 1
    for a in (it.vals, *(it.grids if not p.regular else [it.starts, it.steps])):
        try:
            a.data = a.data
            bad(f"{name}: the data of a field can be reassigned")
        except ValidationError:
            pass
    if it.ndims() != p.n or (not p.regular and it.dims() != p.dims):
        bad(f"{name}: ndims() or dims() wrong ({p.describe()})")
    # one object in several places
    if r.random() < 0.25:
        q = Problem(r, p.method, p.dtype, p.regular, p.n)
        if r.random() < 0.6:
            tie_grids(r, q)
        alone, _, _ = construct(r, q, lin, direct=False)
        if r.random() < 0.5:
            first_args = (list(q.dims), q.starts, q.steps) if q.regular else (q.grids,)
            together = type(it).new(*first_args, q.vals, **({"linearize_extrapolation": lin} if q.method == "cubic" else {}))
        else:
            one = {}
            A = lambda a: one.setdefault(a.tobytes(), arr_cls(q.dtype)(data=a))
            extra = {"linearize_extrapolation": lin} if q.method == "cubic" else {}
            kw = dict(dims=list(q.dims), starts=A(q.starts), steps=A(q.steps)) if q.regular else dict(grids=[A(g) for g in q.grids])
            together = type(it)(**kw, vals=A(q.vals.reshape(-1)), **extra)
        kk = pick(r, [1, 3, q.dims[0], q.dims[-1]]) if q.dims[0] < 100 else 3
        x, plain_x, how = tied(r, q, kk, True)
        g1, g2 = together.eval(x), alone.eval(plain_x)
        if np.asarray(g1).tobytes() != g2.tobytes():
            bad(f"{name} with points {how}: {g1.tolist()}, with equal separate arrays {g2.tolist()} ({q.describe()})")
        b1, b2 = together.check_bounds(x, 1e-8), alone.check_bounds(plain_x, 1e-8)
        if b1.tolist() != b2.tolist():
            bad(f"{name}.check_bounds with points {how}: {b1.tolist()}, with equal separate arrays {b2.tolist()} ({q.describe()})")
        c.evals += 4
        c.count("one_object_in_several_places")
    c.count(f"{p.n}d")
    c.sig(name, str(p.dtype), p.n, lin, k, tuple(flags))
    if len(c.samples) < 2:
        c.samples.append(f"{name} {p.describe()} at {[float(x[0]) for x in cols]} -> {float(first[0])!r}; flags {flags}")


# ---- C26 ------------------------------------------------------------------------------------------------------
def wild(r, shape, dtype, finite=False):
    """any bit pattern, specials over-represented"""
    n = int(np.prod(shape))
    if dtype == np.float64:
        a = r.integers(0, 2**64, n, dtype=np.uint64).view(np.float64)
        sp = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, np.inf, -np.inf, np.nan, 0.1, 1 / 3, 1e16 + 2, 123456789.123456789]
    else:
        a = r.integers(0, 2**32, n, dtype=np.uint32).view(np.float32)
        sp = [0.0, -0.0, 1e-45, -1e-45, 1.1754944e-38, 3.4028235e38, -3.4028235e38, np.inf, -np.inf, np.nan, 0.1, 1 / 3, 16777217.0, 0.30000001192092896]
    a = a.copy()
    m = r.random(n) < 0.4
    with np.errstate(over="ignore"):
        a[m] = np.array([pick(r, sp) for _ in range(int(m.sum()))], dtype=np.float64).astype(dtype)
        m = r.random(n) < 0.3
        a[m] = r.normal(size=int(m.sum())).astype(dtype)
    if finite:
        a[~np.isfinite(a)] = 1.5
    return a.reshape(shape)


def same_floats(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    n1, n2 = np.isnan(a), np.isnan(b)
    if not np.array_equal(n1, n2):
        return False
    return a[~n1].tobytes() == b[~n2].tobytes()


def fields_of(it):
    out = {}
    for f in type(it).model_fields:
        v = getattr(it, f)
        out[f] = [x.data for x in v] if isinstance(v, list) and v and hasattr(v[0], "data") else v.data if hasattr(v, "data") and isinstance(v, BaseModel) else v
    return out


def same_state(a, b):
    if type(a) is not type(b):
        return f"{type(a).__name__} became {type(b).__name__}"
    fa, fb = fields_of(a), fields_of(b)
    for k in fa:
        x, y = fa[k], fb[k]
        xs = x if isinstance(x, list) else [x]
        ys = y if isinstance(y, list) else [y]
        if len(xs) != len(ys):
            return f"{k}: {len(xs)} entries became {len(ys)}"
        for u, v in zip(xs, ys):
            if isinstance(u, np.ndarray):
                if not same_floats(u, v):
                    return f"{k}: {u.dtype} {u.tolist()[:20]} became {v.dtype} {v.tolist()[:20]}"
            elif type(u) is not type(v) or u != v:
                return f"{k}: {u!r} became {v!r}"
    return None


def c26(c, r):
    p = new_problem(r)
    lin = bool(r.random() < 0.5) if p.method == "cubic" else True
    special = r.random() < 0.75
    if special:
        p.vals = wild(r, p.vals.shape, p.dtype)
        if p.regular and r.random() < 0.5:
            p.starts = wild(r, (p.n,), p.dtype, finite=True)
            p.steps = np.abs(wild(r, (p.n,), p.dtype, finite=True))
            p.steps[p.steps == 0] = 0.1
        elif not p.regular and r.random() < 0.5:
            for a in range(p.n):
                g = np.unique(wild(r, (p.dims[a] * 3,), p.dtype, finite=True))
                if len(g) >= p.dims[a]:
                    with np.errstate(over="ignore"):
                        d = np.diff(g[: p.dims[a]])
                    if np.all(d > 0):
                        p.grids[a] = g[: p.dims[a]].copy()
    it, _, _ = construct(r, p, lin)
    name = type(it).__name__
    # the object must hold what it was given in the first place
    if not same_floats(it.vals.data, p.vals.reshape(-1)):
        bad(f"{name} does not hold the values it was given ({p.describe()})")
    s0 = it.model_dump_json(**({"indent": 2} if r.random() < 0.2 else {}))
    cur = it
    rounds = int(r.integers(1, 4))
    for k in range(rounds):
        way = int(r.integers(4))
        if way == 0:
            nxt = type(it).model_validate_json(cur.model_dump_json())
        elif way == 1:
            nxt = type(it).model_validate_json(cur.model_dump_json().encode())
        elif way == 2:
            nxt = type(it)(**json.loads(cur.model_dump_json()))
        else:
            nxt = type(it).model_validate_json(json.dumps(json.loads(cur.model_dump_json()), indent=1))
        c.evals += 1
        d = same_state(it, nxt)
        if d:
            bad(f"{name}: after {k + 1} JSON round trips {d} ({p.describe()})")
        cur = nxt
    s1 = it.model_dump_json()
    if cur.model_dump_json() != s1:
        bad(f"{name}: JSON text changes in a round trip ({p.describe()})")
    cols = [x[np.isfinite(x)] if False else x for x in p.obs(r, npoints(r, p))] if not special or not p.regular else None
    if cols is None:
        cols = [(p.starts[a].astype(np.longdouble) + p.steps[a].astype(np.longdouble) * r.uniform(-1, p.dims[a], 3)).astype(p.dtype) for a in range(p.n)]
    try:
        a = it.eval(cols)
    except AssertionError as e:
        a = str(e)
    try:
        b = cur.eval(cols)
    except AssertionError as e:
        b = str(e)
    c.evals += 1
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and a == b):
            bad(f"{name}: evaluation {a!r} before, {b!r} after a round trip ({p.describe()})")
        c.count("both_refuse_the_points")
    elif not same_floats(a, b):
        bad(f"{name}: evaluates to {a.tolist()} before, {b.tolist()} after a round trip ({p.describe()})")
    # copies
    import copy, pickle

    how, f = pick(r, [
        ("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy), ("model_copy", lambda x: x.model_copy()),
        ("model_copy(deep)", lambda x: x.model_copy(deep=True)), ("pickle", lambda x: pickle.loads(pickle.dumps(x))),
        ("model_validate(model_dump)", lambda x: type(x).model_validate(x.model_dump())),
    ])
    dup = f(it)
    c.evals += 1
    d = same_state(it, dup)
    if d:
        bad(f"{name}: after {how} {d} ({p.describe()})")
    if not isinstance(a, str) and not same_floats(dup.eval(cols), a):
        bad(f"{name}: evaluates differently after {how} ({p.describe()})")
    if dup.model_dump_json() != s1:
        bad(f"{name}: JSON text changes after {how} ({p.describe()})")
    c.count("copies")
    # array wrappers holding arrays of any shape, by themselves and inside an interpolator
    if r.random() < 0.3:
        shape = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(1, 6))))
        w = type(it.vals)(data=wild(r, shape, p.dtype))
        held = type(it)(**{k: (type(it.vals)(data=p.vals.reshape(p.dims)) if k == "vals" else getattr(it, k)) for k in type(it).model_fields})
        for x in (w, held):
            for how, f in [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy), ("model_copy(deep)", lambda x: x.model_copy(deep=True)), ("pickle", lambda x: pickle.loads(pickle.dumps(x))),
                           ("JSON", lambda x: type(x).model_validate_json(x.model_dump_json()))]:
                d = same_state(x, f(x))
                c.evals += 1
                if d:
                    bad(f"{type(x).__name__} holding an array of shape {shape if x is w else tuple(p.dims)}: after {how} {d} ({p.describe()})")
        c.count("arrays_of_many_dimensions")
    v = p.vals
    c.count("special_values", int((~np.isfinite(v)).sum() + (v == 0).sum() + (np.abs(v) < np.finfo(p.dtype).tiny).sum()))
    c.sig(name, str(p.dtype), p.n, lin, rounds, special, hashlib.sha1(s0.encode()).hexdigest()[:4])
    if len(c.samples) < 1:
        c.samples.append(f"{name} {p.describe()}: {s0[:300]}")


# ---- C28 ------------------------------------------------------------------------------------------------------
def raw_name(p):
    return f"interpn_{p.method}_{'regular' if p.regular else 'rectilinear'}_{'f64' if p.dtype == np.float64 else 'f32'}"


def raw_args(p, lin, obs, out, dims=None):
    """documented order"""
    a = []
    if p.regular:
        a += [("dims", p.dims if dims is None else dims), ("starts", p.starts), ("steps", p.steps)]
    else:
        a += [("grids", p.grids)]
    a += [("vals", p.vals.reshape(-1))]
    if p.method == "cubic":
        a += [("linearize_extrapolation", lin)]
    return a + [("obs", obs), ("out", out)]


def invoke(r, f, args):
    """positionally, by keyword, or mixed"""
    k = pick(r, [len(args), 0, int(r.integers(len(args) + 1))])
    return f(*[v for _, v in args[:k]], **dict(args[k:]))


def c28(c, r, idx):
    # systematic over the sixteen functions
    names = [n for n in raw.__all__]
    name = names[idx % len(names)]
    dtype = np.dtype("float64" if name.endswith("f64") else "float32")
    regular = "regular" in name
    if name.startswith("check_bounds"):
        n = int(r.integers(1, 9))
        p = Problem(r, "linear", dtype, regular, n)
        k = pick(r, [1, 2, 5, 9, 30])
        lo = [float(p.nodes(a)[0]) for a in range(n)]
        hi = [float(p.nodes(a)[-1]) for a in range(n)]
        atol = pick(r, [0.0, 1e-8, float(r.uniform(0.1, 4))])
        cols = p.obs(r, k, "inside")
        flags = []
        fine = bool(r.random() < 0.5)
        if fine:
            flags = fine_bounds(r, p, cols, atol, not regular)
        for a in range(0 if fine else n):
            f = bool(r.random() < 0.4)
            if f:
                d = atol + max(abs(lo[a]), abs(hi[a]), 1.0) * pick(r, [1e-3, 0.3, 3.0]) + 0.01 * (hi[a] - lo[a])
                cols[a][int(r.integers(k))] = lo[a] - d if r.random() < 0.5 else hi[a] + d
            elif atol > 0.05 and atol > 1e-3 * max(abs(lo[a]), abs(hi[a])) and r.random() < 0.5:
                d = atol * 0.9
                cols[a][int(r.integers(k))] = lo[a] - d if r.random() < 0.5 else hi[a] + d
            flags.append(f)
        big = r.random(n + 6) < 0.5
        keep = big.copy()
        out = big[3 : 3 + n]
        args = [("dims", p.dims), ("starts", p.starts), ("steps", p.steps)] if regular else [("grids", p.grids)]
        args += [("obs", cols), ("atol", atol), ("out", out)]
        ret = invoke(r, getattr(raw, name), args)
        c.evals += 1
        if ret is not None:
            bad(f"{name} returned {ret!r}")
        if out.tolist() != flags:
            bad(f"{name}: flags {out.tolist()}, expected {flags}: atol {atol}, {[x.tolist() for x in cols]}, edges {list(zip(lo, hi))}")
        if not (np.array_equal(big[:3], keep[:3]) and np.array_equal(big[3 + n :], keep[3 + n :])):
            bad(f"{name} wrote outside its output")
        c.sig(name, n, k, tuple(flags), atol == 0)
        c.count(name)
        return
    method = name.split("_")[1]
    n = pick_n(r, method) if r.random() < 0.7 else int(r.integers(1, MAXN[method] + 1))
    p = Problem(r, method, dtype, regular, n)
    k = npoints(r, p)
    cols = p.obs(r, k)
    lin = bool(r.random() < 0.5)
    big = np.full(k + 10, -7.25, dtype=dtype)
    out = big[5 : 5 + k]
    dims = np.array(p.dims) if r.random() < 0.5 else list(p.dims)
    src = cols + [p.vals, p.starts, p.steps] + p.grids
    fp = fingerprint(src)
    ret = invoke(r, getattr(raw, name), raw_args(p, lin, cols if r.random() < 0.7 else tuple(cols), out, dims))
    c.evals += 1
    if ret is not None:
        bad(f"{name} returned {ret!r}")
    want, mag = p.want(cols, lin)
    compare(p, out, want, mag, f"raw.{name}(linearize_extrapolation={lin})" if method == "cubic" else f"raw.{name}", cols)
    if not (np.all(big[:5] == -7.25) and np.all(big[5 + k :] == -7.25)):
        bad(f"{name} wrote outside its output ({p.describe()})")
    if fingerprint(src) != fp:
        bad(f"{name} modified an input ({p.describe()})")
    # no points at all
    if r.random() < 0.1:
        keep = big.copy()
        invoke(r, getattr(raw, name), raw_args(p, lin, [x[:0].copy() for x in cols], big[3:3]))
        c.evals += 1
        if big.tobytes() != keep.tobytes():
            bad(f"{name} of no points wrote somewhere ({p.describe()})")
        c.count("calls_without_points")
    # one object in several places
    if r.random() < 0.25:
        q = Problem(r, method, dtype, regular, n)
        if r.random() < 0.6:
            tie_grids(r, q)
        kk = pick(r, [1, 3, q.dims[0], q.dims[-1]]) if q.dims[0] < 100 else 3
        x, plain_x, how = tied(r, q, kk, True)
        o1, o2 = np.full(kk, -7.25, dtype=dtype), np.full(kk, -7.25, dtype=dtype)
        invoke(r, getattr(raw, name), raw_args(q, lin, x, o1))
        q.grids, q.vals = [g.copy() for g in q.grids], q.vals.copy()
        invoke(r, getattr(raw, name), raw_args(q, lin, plain_x, o2))
        c.evals += 2
        if o1.tobytes() != o2.tobytes():
            bad(f"{name} with points {how}: {o1.tolist()}, with equal separate arrays {o2.tolist()} ({q.describe()})")
        c.count("one_object_in_several_places")
    # other data in the very same arrays
    if r.random() < 0.2:
        q = p.renewed(r, p.regular)
        new = q.obs(r, k)
        for a, b in zip([*cols, p.vals, p.starts, p.steps, *p.grids], [*new, q.vals, q.starts, q.steps, *q.grids]):
            a[...] = b
        want, mag = q.want(new, lin)
        invoke(r, getattr(raw, name), raw_args(p, lin, cols, out, dims))
        compare(q, out, want, mag, f"raw.{name} again after changing the arrays in place", cols)
        c.evals += 1
        c.count("arrays_changed_in_place")
    c.count(name)
    c.sig(name, n, k, lin if method == "cubic" else None, p.dims)
    if len(c.samples) < 2:
        c.samples.append(f"raw.{name} {p.describe()} at {[float(x[0]) for x in cols]} -> {float(out[0])!r}")


# ---- C29 ------------------------------------------------------------------------------------------------------
def spoil(r, kind, p, kw, A):
    """kw: keyword arguments of direct construction; -> what was done, or None if it does not apply"""
    n = p.n
    if kind == "unknown field":
        if r.random() < 0.4:  # inside one of the arrays
            f = pick(r, [k for k in kw if k not in ("dims", "linearize_extrapolation")])
            name, v = pick(r, ["shape", "order", "strides", "ndim"]), pick(r, [1, "C", [4]])
            a = kw[f][0] if isinstance(kw[f], list) else kw[f]
            wrong = {"data": a.data if r.random() < 0.5 else a.data.tolist(), "dtype": a.dtype, name: v}
            kw[f] = [wrong] + kw[f][1:] if isinstance(kw[f], list) else wrong
            return f"unknown field {name} inside {f}"
        kw[pick(r, ["extra", "dim", "method", "linearise_extrapolation", "grid"])] = pick(r, [1, True, [1.0]])
    elif kind == "dimensions":
        m = pick(r, [0, 9, 10] if p.method != "nearest" else [0, 7, 8, 9])
        size = 2**m if p.method != "cubic" or m == 0 else 2**m
        if p.regular:
            kw.update(dims=[2] * m, starts=A(data=np.zeros(m, p.dtype)), steps=A(data=np.ones(m, p.dtype)), vals=A(data=np.zeros(size, p.dtype)))
        else:
            kw.update(grids=[A(data=np.array([0, 1], p.dtype))] * m, vals=A(data=np.zeros(size, p.dtype)))
        return f"{m} dimensions"
    elif kind == "values":
        k = p.vals.size
        if p.regular and r.random() < 0.3:  # numbers of points whose product only fits without the upper bits
            d, m = pick(r, [([65536, 65537], 65536), ([65536, 65536], 0), ([2**31, 2], 0), ([2**16 + 4, 2**16], 2**18), ([4, 2**62], 0), ([2**30 + 4, 4], 16), ([2**62 + 4, 4], 16), ([2**31 + 8, 8, 2], 128)])
            kw.update(dims=d, starts=A(data=np.zeros(len(d), p.dtype)), steps=A(data=np.ones(len(d), p.dtype)), vals=A(data=np.zeros(m, p.dtype)))
            return f"{m} values for dims {d}"
        m = pick(r, [k + 1, k - 1, 0, 2 * k])
        kw["vals"] = A(data=np.zeros(m, p.dtype))
        return f"{m} values where {k} belong"
    elif kind == "starts" and p.regular:
        m = pick(r, [n + 1, n - 1, 0])
        kw["starts"] = A(data=np.zeros(m, p.dtype))
        return f"{m} starts for {n} dimensions"
    elif kind == "steps" and p.regular:
        m = pick(r, [n + 1, n - 1, 0])
        kw["steps"] = A(data=np.ones(m, p.dtype))
        return f"{m} steps for {n} dimensions"
    elif kind == "dims" and p.regular:
        d = list(p.dims)
        d[int(r.integers(n))] += pick(r, [1, -1])
        kw["dims"] = d
        return f"dims {d} for values of shape {p.dims}"
    elif kind == "order":
        a = int(r.integers(n))
        if p.regular:
            s = p.steps.copy()
            s[a] = pick(r, [0.0, -s[a], np.nan, -np.inf, -1e-30])
            kw["steps"] = A(data=s)
            return f"step {s[a]}"
        g = p.grids[a].copy()
        i = int(r.integers(1, len(g)))
        how = int(r.integers(4))
        if how == 0:
            g[i] = g[i - 1]
        elif how == 1:
            g[i], g[i - 1] = g[i - 1], g[i]
        elif how == 2:
            g[i] = np.nan
        else:
            g = g[::-1].copy()
        gs = [A(data=x) for x in p.grids]
        gs[a] = A(data=g)
        kw["grids"] = gs
        return f"axis {g.tolist()[:12]}"
    elif kind == "dtype":
        O = arr_cls(np.float32 if p.dtype == np.float64 else np.float64)
        other = np.float32 if p.dtype == np.float64 else np.float64
        if p.regular:
            f = pick(r, ["starts", "steps", "vals"])
            kw[f] = O(data=kw[f].data.astype(other))
            return f"{f} of another dtype"
        if r.random() < 0.5:
            kw["vals"] = O(data=kw["vals"].data.astype(other))
            return "values of another dtype"
        a = int(r.integers(n))
        gs = list(kw["grids"])
        gs[a] = O(data=gs[a].data.astype(other))
        kw["grids"] = gs
        return f"axis {a} of another dtype"
    elif kind == "missing":
        f = pick(r, sorted(kw))
        del kw[f]
        return f"no {f}"
    elif kind == "type":
        f = pick(r, sorted(kw))
        kw[f] = pick(r, [None, "x", object()])
        return f"{f}={kw[f]!r}"
    else:
        return None
    return kind


KINDS = ["fine", "fine", "fine", "unknown field", "dimensions", "values", "starts", "steps", "dims", "order", "order", "dtype", "missing", "type"]


def wrapped(c, r, p, A):
    """what the array wrappers hold, whatever they are made from"""
    T = p.dtype
    other = np.float32 if T == np.float64 else np.float64
    src = p.vals.reshape(-1)[: int(r.integers(0, 12))]
    whole = np.rint(np.clip(src, -120, 120))
    forms = {
        "a list of floats": lambda: src.tolist(),
        "a list of scalars of its type": lambda: list(src),
        "a list of scalars of the other type": lambda: list(src.astype(other)),
        "a list of integers": lambda: [int(v) for v in whole],
        "a list of numpy integers": lambda: list(whole.astype(np.int16)),
        "a list of truths": lambda: [bool(v > 0) for v in src],
        "a list of integers and floats": lambda: [int(v) if i % 2 else float(v) for i, v in enumerate(whole)],
        "a list of scalars of both types": lambda: [(np.float32, np.float64)[i % 2](v) for i, v in enumerate(src)],
        "a nested list": lambda: src.reshape(-1, 1).tolist(),
        "a list of half floats": lambda: list(whole.astype(np.float16)),
        "an integer array": lambda: whole.astype(pick(r, [np.int8, np.int32, np.int64])),
        "an array of truths": lambda: src > 0,
        "a half float array": lambda: whole.astype(np.float16),
        "a long double array": lambda: src.astype(np.longdouble),
        "an array of the other type": lambda: src.astype(other),
        "an array of the other byte order": lambda: src.astype(T.newbyteorder()),
        "every second element": lambda: np.repeat(src, 2)[::2],
        "a reversed array": lambda: src[::-1],
        "a column": lambda: src.reshape(-1, 1),
        "a read-only array": lambda: (lambda a: (a.setflags(write=False), a)[1])(src.copy()),
        "text": lambda: json.dumps(src.tolist()),
        "text of integers": lambda: json.dumps([int(v) for v in whole]),
        "text of integers and floats": lambda: json.dumps([int(v) if i % 2 else float(v) for i, v in enumerate(whole)]),
    }
    for name in r.permutation(list(forms))[:5]:
        given = forms[name]()
        if isinstance(given, list) and not given:
            continue
        want = np.array(json.loads(given) if isinstance(given, str) else given)
        with np.errstate(all="ignore"):
            want = want.astype(T)
        made = A(data=given)
        got = made.data
        c.evals += 1
        d = f"{A.__name__} of {name} {given!r}"
        if got.dtype != T or not got.dtype.isnative:
            bad(f"{d} holds {got.dtype}")
        if not got.flags.c_contiguous:
            bad(f"{d} holds an array that is not contiguous")
        if got.shape != want.shape or not same_floats(got.reshape(-1), want.reshape(-1)):
            bad(f"{d} holds {got.tolist()}, not {want.tolist()}")
        if made.dtype != str(T):
            bad(f"{d} says it is {made.dtype}")
        back = A.model_validate_json(made.model_dump_json())
        # (an empty array's other dimensions are not written down)
        if back.data.dtype != T or got.size and back.data.shape != got.shape or not same_floats(back.data.reshape(-1), got.reshape(-1)):
            bad(f"{d} comes back from JSON as {back.data!r}")
        c.count("wrappers_made")
        c.sig("wrapper", str(T), str(name))


def c29(c, r, idx):
    p = new_problem(r)
    if r.random() < 0.1:
        wrapped(c, r, p, arr_cls(p.dtype))
    lin = bool(r.random() < 0.5)
    cls = cls_of(p)
    name = cls.__name__
    A = arr_cls(p.dtype)
    kw = {"vals": A(data=p.vals.reshape(-1))}
    if p.regular:
        kw.update(dims=list(p.dims), starts=A(data=p.starts), steps=A(data=p.steps))
    else:
        kw.update(grids=[A(data=g) for g in p.grids])
    if p.method == "cubic":
        kw["linearize_extrapolation"] = lin
    kind = KINDS[idx % len(KINDS)]
    if kind != "fine":
        what = spoil(r, kind, p, kw, A)
        if what is None:
            kind = "fine"
    ways = ["direct", "json"]
    if kind == "fine":
        flat = cls(**kw)
        if not same_floats(flat.vals.data, p.vals.reshape(-1)):
            bad(f"{name} holds other values than given ({p.describe()})")
        # JSON
        again = cls.model_validate_json(flat.model_dump_json())
        d = same_state(flat, again)
        if d:
            bad(f"{name}: {d} through JSON")
        # through new: any layout, shape and dtype
        L = lambda a: lay(r, a)[0]
        cast = (lambda a: a) if r.random() < 0.5 else (lambda a: a.astype(np.float64 if p.dtype == np.float32 else np.float32))
        conv = cast is not None and cast(np.zeros(1, p.dtype)).dtype != p.dtype
        def grid_arg(g):
            g = cast(g)
            s = int(r.integers(4))
            if s == 1:
                g = g.reshape(1, -1)
            elif s == 2:
                g = g.reshape(-1, 1)
            elif s == 3 and g.size % 2 == 0:
                g = g.reshape(2, -1)
            return L(g)
        vs = p.vals if r.random() < 0.6 else p.vals.reshape(-1)
        extra = {"linearize_extrapolation": lin} if p.method == "cubic" else {}
        if p.regular:
            args = (list(p.dims), grid_arg(p.starts), grid_arg(p.steps), L(vs))
            ref_kw = dict(kw, starts=A(data=cast(p.starts).astype(p.dtype)), steps=A(data=cast(p.steps).astype(p.dtype)))
        else:
            args = ([grid_arg(g) for g in p.grids], L(vs))
            ref_kw = dict(kw, grids=[A(data=cast(g).astype(p.dtype)) for g in p.grids])
        fp = fingerprint([a for x in args for a in (x if isinstance(x, list) else [x]) if isinstance(a, np.ndarray)])
        b = cls.new(*args, **extra)
        c.evals += 3
        if fp != fingerprint([a for x in args for a in (x if isinstance(x, list) else [x]) if isinstance(a, np.ndarray)]):
            bad(f"{name}.new modified its arguments")
        d = same_state(cls(**ref_kw), b)
        if d:
            bad(f"{name}.new differs from direct construction: {d} ({p.describe()})")
        cols = p.obs(r, npoints(r, p))
        e = b.eval(cols)
        w = cls(**ref_kw).eval(cols)
        if not bits_equal(e, w):
            bad(f"{name}.new evaluates to {e.tolist()}, direct construction to {w.tolist()} ({p.describe()})")
        c.count("well_formed_accepted", 3)
        if conv:
            c.count("converted_dtype")
    else:
        err = None
        try:
            o = cls(**kw)
        except ValidationError:
            pass
        except Exception as e:
            # the wrappers themselves raise TypeError for data they cannot hold at all
            if kind == "type" and isinstance(e, TypeError):
                pass
            else:
                bad(f"{name}({what}): {type(e).__name__} {e} instead of a validation error ({p.describe()})")
        else:
            bad(f"{name} accepted {what} ({p.describe()})")
        c.evals += 1
        c.count("malformed_rejected")
        # the same through JSON
        if kind not in ("type",):
            try:
                doc = {}
                plain = lambda x: json.loads(x.model_dump_json()) if hasattr(x, "model_dump_json") else dict(x, data=json.dumps(np.asarray(x["data"]).tolist())) if isinstance(x, dict) else x
                for k, v in kw.items():
                    if isinstance(v, dict) or isinstance(v, list) and v and (isinstance(v[0], dict) or hasattr(v[0], "model_dump")):
                        doc[k] = [plain(x) for x in v] if isinstance(v, list) else plain(v)
                    elif hasattr(v, "model_dump_json"):
                        doc[k] = json.loads(v.model_dump_json())
                    else:
                        doc[k] = v
                cls.model_validate_json(json.dumps(doc))
            except ValidationError:
                pass
            except Exception as e:
                bad(f"{name} from JSON ({what}): {type(e).__name__} {e} instead of a validation error ({p.describe()})")
            else:
                bad(f"{name} accepted from JSON: {what} ({p.describe()})")
            c.evals += 1
            c.count("malformed_json_rejected")
        # and through new, where it can be expressed
        if kind in ("values", "starts", "steps", "dims", "order", "dimensions"):
            extra = {"linearize_extrapolation": lin} if p.method == "cubic" else {}
            try:
                if p.regular:
                    cls.new(kw["dims"], kw["starts"].data, kw["steps"].data, kw["vals"].data, **extra)
                else:
                    cls.new([g.data for g in kw["grids"]], kw["vals"].data, **extra)
            except ValidationError:
                pass
            except Exception as e:
                bad(f"{name}.new ({what}): {type(e).__name__} {e} instead of a validation error ({p.describe()})")
            else:
                bad(f"{name}.new accepted {what} ({p.describe()})")
            c.evals += 1
            c.count("malformed_new_rejected")
    c.sig(name, str(p.dtype), p.n, kind, p.dims, lin)
    if len(c.samples) < 2:
        c.samples.append(f"{name} {p.describe()}: {kind}" + ("" if kind == "fine" else f" ({what})"))


# ---- C27 ------------------------------------------------------------------------------------------------------
def misaligned(a):
    b = np.zeros(a.nbytes + 1, dtype=np.uint8)
    v = b[1:].view(a.dtype) if False else np.frombuffer(b, dtype=a.dtype, offset=1, count=a.size)
    v = v.reshape(a.shape)
    v[...] = a
    return v


MAL = ["obs count", "obs length", "out length", "vals size", "dims", "wrong dtype", "too many dimensions", "noncontiguous out", "readonly out", "overlap obs",
       "overlap vals", "overlap grid", "misaligned in", "misaligned out", "wrong type", "2-d", "negative dims", "fine", "byte order", "grid", "empty", "int arrays", "same obs", "partial overlap"]


def c27(c, r, idx, around=None):
    """raw functions, the interpn function and the objects with one thing wrong"""
    kind = MAL[idx % len(MAL)]
    p = new_problem(r)
    k = npoints(r, p) + 1
    cols = p.obs(r, k)
    lin = True
    api = pick(r, ["raw", "raw", "interpn", "object", "bounds"])
    big = np.full(k + 64, -7.25, dtype=p.dtype)
    out = big[32 : 32 + k]
    watch = [(big, lambda: None)]
    A = {"obs": list(cols), "out": out, "vals": p.vals.reshape(-1), "starts": p.starts, "steps": p.steps, "grids": list(p.grids), "dims": list(p.dims)}
    must = True  # an exception is required
    may_be_right = False  # otherwise correct results are fine
    T = p.dtype
    other = np.dtype("float32" if T == np.float64 else "float64")
    what = kind
    if kind == "obs count":
        m = pick(r, [p.n - 1, p.n + 1, 0, p.n + 5])
        A["obs"] = (A["obs"] + [cols[0]] * 6)[:m]
        what = f"{m} observation arrays for {p.n} dimensions"
    elif kind == "obs length":
        a = int(r.integers(p.n))
        m = pick(r, [k - 1, k + 1, 0, k + 40])
        A["obs"][a] = np.resize(cols[a], m)
        what = f"observation array {a} has {m} entries, the others {k}"
        if p.n == 1 and api != "raw":
            # nothing else to disagree with but out, which may be derived from it
            api = "raw"
    elif kind == "out length":
        m = pick(r, [k - 1, k + 1, 0, k + 20])
        A["out"] = out = big[32 : 32 + m]
        what = f"output of {m} for {k} points"
    elif kind == "vals size":
        s = p.vals.size
        A["vals"] = np.resize(p.vals.reshape(-1), pick(r, [s - 1, s + 1, 0, 2 * s]))
        what = f"{A['vals'].size} values for {s} grid points"
        if api == "bounds":
            api = "raw"
    elif kind == "dims":
        if p.regular:
            a = int(r.integers(p.n))
            A["dims"] = [d + (i == a) for i, d in enumerate(p.dims)]
            what = f"dims {A['dims']} for values of shape {p.dims}"
            api = "raw"
        else:
            a = int(r.integers(p.n))
            A["grids"][a] = np.append(p.grids[a], p.grids[a][-1] + T.type(1))
            what = "an axis longer than the values"
            api = pick(r, ["raw", "interpn"])
    elif kind == "wrong dtype":
        f = pick(r, ["obs", "out", "vals"] + (["starts", "steps"] if p.regular else ["grids"]))
        if api in ("interpn", "object") and f not in ("obs", "out"):
            f = "obs"
        if api == "bounds" and f in ("out", "vals"):
            f = "obs"
        t = pick(r, [other, np.dtype("int64"), np.dtype("float16"), np.dtype("complex128"), np.dtype(object), np.dtype("bool")])
        if f in ("obs", "grids"):
            a = int(r.integers(p.n))
            A[f][a] = A[f][a].astype(t)
        elif f == "out":
            A["out"] = np.zeros(k, dtype=t)
        else:
            A[f] = A[f].astype(t)
        what = f"{f} of dtype {t}"
    elif kind == "too many dimensions":
        m = pick(r, [7, 9, 10, 12]) if p.method == "nearest" else pick(r, [9, 10, 15])
        lo = 4 if p.method == "cubic" else 2
        size = min(lo**m, 2**18)
        A.update(obs=[np.zeros(k, T)] * m, dims=[lo] * m, starts=np.zeros(m, T), steps=np.ones(m, T), grids=[np.arange(lo, dtype=T)] * m, vals=np.zeros(size, T))
        what = f"{m} dimensions"
        api = pick(r, ["raw", "interpn", "bounds"])
        if api == "bounds":
            must = m > 8
            may_be_right = True
    elif kind == "noncontiguous out":
        buf = np.full(2 * k + 8, -7.25, dtype=T)
        A["out"] = buf[4 : 4 + 2 * k : 2] if r.random() < 0.5 else buf[4 : 4 + k][::-1]
        watch.append((buf, None))
        api = pick(r, ["raw", "object"])
        if k == 1:
            must, may_be_right = False, True
    elif kind == "readonly out":
        A["out"] = np.full(k, -7.25, dtype=T)
        A["out"].flags.writeable = False
        api = pick(r, ["raw", "object", "interpn", "bounds"])
    elif kind == "overlap obs":
        A["out"] = A["obs"][int(r.integers(p.n))]
        must, may_be_right = False, True
        if api == "bounds":
            api = "raw"
    elif kind == "partial overlap":
        buf = np.zeros(2 * k, dtype=T)
        a = int(r.integers(p.n))
        sh = int(r.integers(0, k))
        buf[:k] = cols[a]
        A["obs"][a] = buf[:k]
        A["out"] = buf[sh : sh + k]
        must, may_be_right = False, True
        if api == "bounds":
            api = "raw"
    elif kind == "overlap vals":
        v = np.zeros(p.vals.size + k, T)
        v[: p.vals.size] = p.vals.reshape(-1)
        A["vals"] = v[: p.vals.size]
        s = int(r.integers(0, p.vals.size + 1))
        A["out"] = v[s : s + k]
        must, may_be_right = False, True
        api = pick(r, ["raw", "interpn"])
    elif kind == "overlap grid":
        src = p.starts if p.regular else p.grids[0]
        v = np.zeros(src.size + k, T)
        v[: src.size] = src
        if p.regular:
            A["starts"] = v[: src.size]
        else:
            A["grids"][0] = v[: src.size]
        A["out"] = v[int(r.integers(src.size)) :][:k]
        must, may_be_right = False, True
        api = "raw"
    elif kind == "misaligned in":
        f = pick(r, ["obs", "vals"] + (["starts", "steps"] if p.regular else ["grids"]))
        if f in ("obs", "grids"):
            a = int(r.integers(p.n))
            A[f][a] = misaligned(A[f][a])
        else:
            A[f] = misaligned(A[f])
        must, may_be_right = False, True
        what = f"misaligned {f}"
    elif kind == "misaligned out":
        A["out"] = misaligned(np.full(k, -7.25, T))
        must, may_be_right = False, True
        api = pick(r, ["raw", "object", "interpn"])
    elif kind == "wrong type":
        f = pick(r, ["obs", "out", "vals"] + (["starts", "steps", "dims"] if p.regular else ["grids"]))
        if api == "bounds" and f == "vals":
            f = "obs"
        if api in ("interpn", "object"):
            f = pick(r, ["obs", "out"])
        v = pick(r, [None, 3, "text", object(), b"sizes as bytes", {"a": 1}])
        if f in ("obs", "grids") and r.random() < 0.5:
            A[f][int(r.integers(p.n))] = v
        else:
            A[f] = v
        what = f"{f}: {v!r}"
        if f == "out" and v is None and api in ("interpn", "object"):
            must, may_be_right = False, True
    elif kind == "2-d":
        f = pick(r, ["obs", "out", "vals"] + (["starts", "steps"] if p.regular else ["grids"]))
        if f in ("obs", "grids"):
            A[f] = [x.reshape(1, -1) for x in A[f]]
        elif f == "out":
            A[f] = A[f].reshape(1, -1)
        else:
            A[f] = A[f].reshape(1, -1)
        must, may_be_right = False, True
        if f == "obs" and api == "object":
            A["out"] = None
        what = f"two-dimensional {f}"
    elif kind == "negative dims":
        if not p.regular:
            kind = "fine"
        else:
            d = list(p.dims)
            a = int(r.integers(p.n))
            d[a] = pick(r, [-1, -d[a], 0, 2**63, 2**64, 2**70, 1.5, "2", None])
            A["dims"] = d
            what = f"dims {d}"
            api = pick(r, ["raw", "bounds"])
            if api == "bounds" and isinstance(d[a], int) and 2**63 <= d[a] < 2**64:
                # representable, and a bounds check only uses it as a count
                must, may_be_right = False, False
    elif kind == "byte order":
        a = int(r.integers(p.n))
        A["obs"][a] = A["obs"][a].astype(T.newbyteorder(">"))
        must, may_be_right = False, True
    elif kind == "grid":
        a = int(r.integers(p.n))
        if p.regular:
            s = p.steps.copy()
            s[a] = pick(r, [0.0, -1.0, np.nan])
            A["steps"] = s
            what = f"step {s[a]}"
        else:
            g = p.grids[a].copy()
            g[1] = g[0]
            A["grids"][a] = g
            what = "a repeated first coordinate"
        api = "raw"
    elif kind == "empty":
        A["obs"] = [x[:0] for x in A["obs"]]
        A["out"] = big[32:32]
        must, may_be_right = False, True
        k = 0
    elif kind == "int arrays":
        A["obs"] = [np.zeros(k, dtype=int)] * p.n
    elif kind == "same obs":
        A["obs"] = [cols[0]] * p.n
        cols = A["obs"]
        must, may_be_right = False, p.n == 1
    if kind == "fine":
        must, may_be_right = False, True
    if api == "object":
        # the grid inside the object is well formed
        if kind in ("vals size", "dims", "grid", "too many dimensions"):
            api = "raw"
    out = A["out"]
    # call
    if api == "bounds":
        name = f"check_bounds_{'regular' if p.regular else 'rectilinear'}_{'f64' if T == np.float64 else 'f32'}"
        n = len(A["dims"]) if kind == "too many dimensions" else p.n
        bigb = np.zeros(n + 32, dtype=bool)
        bout = bigb[16 : 16 + n]
        if kind == "out length":
            bout = bigb[16 : 16 + n + pick(r, [1, -1, 5])]
            what = f"{bout.size} flags for {n} dimensions"
        elif kind == "readonly out":
            bout = np.zeros(n, dtype=bool)
            bout.flags.writeable = False
        elif kind == "noncontiguous out":
            bout = bigb[16 : 16 + 2 * n : 2] if 2 * n <= 16 else bigb[::2][:n]
        elif kind == "wrong type" and what.startswith("out"):
            bout = A["out"]
        if kind in ("obs length",):
            must, may_be_right = False, False
        watch = [(bigb, None)]
        args = ([A["dims"], A["starts"], A["steps"]] if p.regular else [A["grids"]]) + [A["obs"], 0.0, bout]
        call = lambda: getattr(raw, name)(*args)
        may_be_right = False
        before_out = bigb.copy()
        outs = []
    elif api == "raw":
        name = raw_name(p)
        args = [A["dims"], A["starts"], A["steps"]] if p.regular else [A["grids"]]
        args += [A["vals"]] + ([lin] if p.method == "cubic" else []) + [A["obs"], out]
        call = lambda: getattr(raw, name)(*args)
    elif api == "interpn":
        name = "interpn"
        args = [A["obs"], A["grids"], A["vals"]]
        if kind == "noncontiguous out":
            must, may_be_right = False, True
        if kind == "2-d" or kind == "overlap obs" or kind == "byte order":
            must, may_be_right = False, True
        if kind == "misaligned out":
            must, may_be_right = False, True
        if kind == "obs length" and p.n == 1:
            must = True
        if kind == "wrong dtype" and what.startswith("grids"):
            must = False
        call = lambda: interpn.interpn(*args, method=p.method, out=out)
    else:
        it, _, _ = construct(r, p, lin)
        name = type(it).__name__ + pick(r, [".eval", ".eval_unchecked"])
        fn = it.eval if name.endswith("eval") else it.eval_unchecked
        args = [A["obs"], out]
        call = lambda: fn(A["obs"], out)
    if around is not None:
        return around(call, args, f"{name} with {what} ({p.describe()})", (name, kind, p.n, str(T)))
    inputs = [a for x in args for a in (x if isinstance(x, (list, tuple)) else [x]) if isinstance(a, np.ndarray) and a is not out and a.dtype != object and not (isinstance(out, np.ndarray) and np.shares_memory(a, out))]
    fp = fingerprint(inputs)
    obytes = out.tobytes() if isinstance(out, np.ndarray) else None
    canary = [(b, b.copy()) for b, _ in watch]
    what = f"{name} with {what}"
    ret, exc = None, None
    try:
        ret = call()
    except BaseException as e:
        exc = e
    c.evals += 1
    tag = f"{what} ({p.describe()})"
    if exc is not None and not isinstance(exc, Exception):
        bad(f"{tag}: raised {type(exc).__name__}, not an ordinary exception: {exc}")
    if exc is None and must:
        bad(f"{tag}: accepted")
    if exc is not None and kind == "fine":
        bad(f"{tag}: well-formed call raised {type(exc).__name__}: {exc}")
    if api != "bounds" and not any(isinstance(out, np.ndarray) and np.shares_memory(a, out) for x in args for a in (x if isinstance(x, (list, tuple)) else [x]) if isinstance(a, np.ndarray) and a is not out):
        if fingerprint(inputs) != fp:
            bad(f"{tag}: an input array changed")
    if exc is not None and obytes is not None and out.tobytes() != obytes:
        bad(f"{tag}: a refused call changed the output")
    for b, b0 in canary:
        m = np.ones(b.shape, bool)
        if api == "bounds":
            if exc is None:
                m[16 : 16 + n] = False
        elif exc is None:
            lo_, hi_ = (32, 32 + k) if b is big else (4, 4 + 2 * k)
            m[lo_:hi_] = False
        if not np.array_equal(b[m], b0[m]):
            bad(f"{tag}: wrote outside the output")
    if exc is None and may_be_right and api != "bounds" and k and kind not in ("too many dimensions",):
        res = ret if ret is not None else out
        cs = [np.asarray(x, dtype=T).reshape(-1) for x in cols]
        want, mag = p.want(cs, lin)
        res = np.array(res).reshape(-1)
        if res.size == k:
            compare(p, res.astype(T), want, mag, what, cs)
        else:
            bad(f"{tag}: {res.size} results for {k} points")
    c.count("raised" if exc is not None else "returned")
    c.count(f"kind_{kind.replace(' ', '_')}")
    c.sig(name, kind, p.n, str(T), type(exc).__name__)
    if len(c.samples) < 3 and exc is not None:
        c.samples.append(f"{tag}: {type(exc).__name__}: {str(exc)[:100]}")


# ---- C32 ------------------------------------------------------------------------------------------------------
def arrays_in(args):
    out, seen = [], set()
    for x in args:
        for a in x if isinstance(x, (list, tuple)) else [x]:
            if isinstance(a, np.ndarray) and id(a) not in seen:
                seen.add(id(a))
                out.append(a)
    return out


def counts(arrays):
    return [sys.getrefcount(arrays[i]) for i in range(len(arrays))]


def shape_of(arrays):
    return [(a.flags.writeable, a.shape, a.strides, a.dtype.str) for a in arrays]


def attempt(call, arrays, tag):
    """-> how it ended; nothing of the outcome survives this frame"""
    try:
        ret = call()
    except Exception as e:
        return type(e).__name__
    except BaseException as e:
        return type(e).__name__
    if isinstance(ret, np.ndarray):
        outs = [a for a in arrays if a is ret or ret.base is a or (a.base is not None and ret.base is a.base)]
        for a in arrays:
            if not any(a is o or np.shares_memory(a, o) for o in outs) and np.shares_memory(a, ret):
                bad(f"{tag}: the result shares memory with an argument that is not its output")
    return "returned"


def released(arrays, tag):
    """every array can be an output now, as it could before the call"""
    for a in arrays:
        if a.dtype not in (np.float64, np.float32) or a.size == 0 or not (a.flags.writeable and a.flags.c_contiguous and a.flags.aligned and a.dtype.isnative):
            continue
        T = a.dtype
        keep = a.copy()
        flat = a.reshape(-1)
        f = raw.interpn_linear_regular_f64 if T == np.float64 else raw.interpn_linear_regular_f32
        try:
            f([2], np.zeros(1, T), np.ones(1, T), np.array([1, 2], T), [np.full(a.size, 0.5, T)], flat)
        except BaseException as e:
            bad(f"{tag}: afterwards an argument cannot be used as output: {type(e).__name__}: {e}")
        if not np.all(flat == T.type(1.5)):
            bad(f"{tag}: afterwards an argument used as output holds {flat.tolist()[:5]}")
        a[...] = keep


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def on_error(kind, flag):
    pass


def ambient():
    """state of the process that a call might change"""
    import gc, locale, warnings

    return {
        "numpy's error handling": (np.geterr(), np.geterrcall()),
        "numpy's print options": np.get_printoptions(),
        "the warning filters": list(warnings.filters),
        "the recursion limit": sys.getrecursionlimit(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "the import path": list(sys.path),
        "the random state": np.random.get_state()[1].tobytes(),
    }


def leftovers(c, call, args, tag, sig):
    import gc

    arrays = arrays_in(args)
    old = np.geterr(), np.geterrcall()
    np.seterrcall(on_error)
    np.seterr(divide="call", over="ignore", under="call", invalid="call")
    before = ambient()
    n0, s0 = counts(arrays), shape_of(arrays)
    how = attempt(call, arrays, tag)
    c.evals += 1
    n1 = counts(arrays)
    if n1 != n0:
        gc.collect()
        n1 = counts(arrays)
    if n1 != n0:
        bad(f"{tag}: {how}; references to the argument arrays went from {n0} to {n1}")
    if shape_of(arrays) != s0:
        bad(f"{tag}: {how}; an argument array changed shape, dtype or writability")
    after = ambient()
    for k in before:
        if str(before[k]) != str(after[k]):
            bad(f"{tag}: {how}; {k} changed from {str(before[k])[:200]} to {str(after[k])[:200]}")
    np.seterr(**old[0])
    np.seterrcall(old[1])
    released(arrays, tag + f" ({how})")
    c.count("returned" if how == "returned" else "raised")
    c.count(f"kind_{sig[1].replace(' ', '_')}")
    c.sig(*sig, how)
    if len(c.samples) < 2:
        c.samples.append(f"{tag}: {how}; references {n0}")
    return how


def growth(c, r, call, arrays, tag, times=60):
    """repeating a call must not make the process grow; sizes are such that keeping one array per call shows"""
    import gc

    for _ in range(20):
        attempt(call, arrays, tag)
    gc.collect()
    b0, m0 = sys.getallocatedblocks(), rss()
    for _ in range(times):
        attempt(call, arrays, tag)
    gc.collect()
    b1, m1 = sys.getallocatedblocks(), rss()
    c.evals += times
    big = sum(a.nbytes for a in arrays)
    if b1 - b0 > times // 2:
        # once more: a cache that fills up is not a leak
        for _ in range(times):
            attempt(call, arrays, tag)
        gc.collect()
        b2 = sys.getallocatedblocks()
        if b2 - b1 > times // 2:
            bad(f"{tag}: Python objects pile up: {b0}, {b1}, {b2} after {times} calls each")
    if m1 - m0 > max(times * 40_000, 3_000_000):
        for _ in range(times):
            attempt(call, arrays, tag)
        gc.collect()
        m2 = rss()
        if m2 - m1 > max(times * 40_000, 3_000_000):
            bad(f"{tag}: memory grows: {m0}, {m1}, {m2} bytes after {times} calls each (arguments: {big} bytes)")
    c.count("repeated_calls_measured", times)


def c32(c, r, idx):
    if idx % 4 != 3:
        def around(call, args, tag, sig):
            how = leftovers(c, call, args, tag, sig)
            if r.random() < 0.02:
                growth(c, r, call, arrays_in(args), tag, 40)
            return how

        return c27(c, r, idx // 4 * 3 + idx % 4, around)
    # objects: building one, using it, failing to build one
    p = new_problem(r)
    if r.random() < 0.05:
        # large enough for a kept copy to show in the size of the process
        p = Problem(r, p.method, p.dtype, p.regular, 1, [20000])
        large = True
    else:
        large = False
    k = 20000 if large else npoints(r, p)
    cls, A = cls_of(p), arr_cls(p.dtype)
    name = cls.__name__
    if large:
        cols = [r.uniform(float(p.nodes(0)[0]), float(p.nodes(0)[-1]), k).astype(p.dtype)]
    else:
        cols = p.obs(r, k)
    extra = {"linearize_extrapolation": True} if p.method == "cubic" else {}
    what = pick(r, ["new", "direct", "bad new", "bad direct", "json", "eval", "check_bounds"])
    v, st, sp, gs = p.vals.reshape(-1), p.starts, p.steps, list(p.grids)
    bad_vals = v[:-1].copy()
    fine_obj = cls.new(list(p.dims), st, sp, p.vals, **extra) if p.regular else cls.new(gs, p.vals, **extra)
    if what.endswith("new"):
        w = bad_vals if what.startswith("bad") else v
        args = [st, sp, w] if p.regular else [gs, w]
        call = (lambda: cls.new(list(p.dims), st, sp, w, **extra)) if p.regular else (lambda: cls.new(gs, w, **extra))
    elif what.endswith("direct"):
        w = bad_vals if what.startswith("bad") else v
        args = [st, sp, w] if p.regular else [gs, w]
        call = (lambda: cls(dims=list(p.dims), starts=A(data=st), steps=A(data=sp), vals=A(data=w), **extra)) if p.regular else (lambda: cls(grids=[A(data=g) for g in gs], vals=A(data=w), **extra))
    elif what == "json":
        args = []
        text = fine_obj.model_dump_json()
        call = lambda: (cls.model_validate_json(text).model_dump_json(), None)[1]
    elif what == "eval":
        o = np.zeros(k, p.dtype)
        args = [cols] + ([o] if r.random() < 0.5 else [])
        call = (lambda: fine_obj.eval(cols, o)) if len(args) == 2 else (lambda: fine_obj.eval(cols))
    else:
        args = [cols]
        call = lambda: fine_obj.check_bounds(cols, 0.0)
    inner = [a for a in arrays_in([x for x in (v if isinstance(v, list) else [v] for v in fields_of(fine_obj).values())])]
    n0 = counts(inner)
    tag = f"{name} {what} ({p.describe()})"
    how = leftovers(c, call, args, tag, (name, "object " + what, p.n, str(p.dtype)))
    if what in ("new", "direct", "json", "eval", "check_bounds") and how != "returned":
        bad(f"{tag}: well-formed call ended with {how}")
    if counts(inner) != n0:
        bad(f"{tag}: references to the object's own arrays went from {n0} to {counts(inner)}")
    if large or r.random() < 0.01:
        growth(c, r, call, arrays_in(args) + inner, tag, 60 if what != "json" else 12)
        c.count("large_growth_measured" if large else "small_growth_measured")


PROPS = {
    "C32": c32,
    "C23": lambda c, r, i: c23(c, r),
    "C24": lambda c, r, i: c24(c, r),
    "C25": lambda c, r, i: c25(c, r),
    "C26": lambda c, r, i: c26(c, r),
    "C27": c27,
    "C28": c28,
    "C29": c29,
}


# ---------------------------------------------------------------------------------------------------------------
def worker(prop, seed, first, count, step, out, progress):
    load()
    np.seterr(all="ignore")
    c = Ctx()
    viol, herr = [], []
    fd = os.open(progress, os.O_WRONLY | os.O_CREAT)
    t_end = time.time() + float(os.environ.get("VPY_LIMIT", "1e9"))
    done = 0
    for idx in range(first, first + count, step):
        os.pwrite(fd, b"%-20d" % idx, 0)
        r = np.random.default_rng([seed, int(prop[1:]), idx])
        try:
            PROPS[prop](c, r, idx)
        except Violation as e:
            viol.append({"case": idx, "message": str(e)[:3000]})
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            # raised inside the package or its extension: the code under test; elsewhere: this file
            last = tb[-1].filename if tb else ""
            msg = "".join(traceback.format_exception_only(type(e), e)).strip()
            # the innermost frame of ours that was calling the package
            in_pkg = "/interpn/" in last or "pydantic" in last
            calls = ("interpn.interpn(", "it.", ".new(", "cls(", "raw,", "f(*", "model_validate", "cur.", "flat")
            line = (tb[-1].line or "") if tb else ""
            if in_pkg or any(s in line for s in calls):
                viol.append({"case": idx, "message": f"well-formed call raised {msg[:1500]} at {os.path.basename(last)}:{tb[-1].lineno}: {line}"})
            else:
                herr.append({"case": idx, "message": "".join(traceback.format_exception(e))[-3000:]})
        done += 1
        if len(viol) >= 3 or len(herr) >= 3 or time.time() > t_end:
            break
    json.dump({"cases": done, "evaluations": c.evals, "sigs": sorted(c.sigs), "counters": c.counters, "samples": c.samples, "violations": viol, "harness_errors": herr}, open(out, "w"))


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    seed = int(opt.get("--seed", 1))
    cases = int(opt.get("--cases", 0)) or int(DEFAULT[prop] * float(opt.get("--mult", 1)))
    first = int(opt.get("--first", 0))
    if "--worker-out" in opt:
        worker(prop, seed, first, cases, int(opt["--step"]), opt["--worker-out"], opt["--progress"])
        return 0
    W = min(int(opt.get("--workers", 8)), cases)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vpy")
    procs = []
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")
    for w in range(W):
        o, pr, er = f"{tmp}/o{w}", f"{tmp}/p{w}", f"{tmp}/e{w}"
        cmd = [sys.executable] + (["-O"] if opt.get("--optimize") == "1" else []) + [os.path.abspath(__file__), prop, "--seed", str(seed), "--first", str(first + w), "--cases", str(cases - w), "--step", str(W), "--worker-out", o, "--progress", pr]
        procs.append([subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(er, "wb")), o, pr, er, None, time.time()])
    tot = {"cases": 0, "evaluations": 0, "counters": {}, "samples": [], "violations": [], "harness_errors": []}
    sigs = set()
    hang = float(opt.get("--hang", 240))
    live = list(procs)
    while live:
        time.sleep(0.05)
        for p in list(live):
            rc = p[0].poll()
            if rc is None:
                try:
                    cur = open(p[2]).read().strip()
                except OSError:
                    cur = None
                if cur != p[4]:
                    p[4], p[5] = cur, time.time()
                elif time.time() - p[5] > hang:
                    p[0].kill()
                    p[0].wait()
                    (tot["violations"] if cur else tot["harness_errors"]).append({"case": int(cur or -1), "message": f"the call did not return within {hang:.0f} s"})
                    live.remove(p)
                continue
            live.remove(p)
            if rc == 0 and os.path.exists(p[1]):
                d = json.load(open(p[1]))
                tot["cases"] += d["cases"]
                tot["evaluations"] += d["evaluations"]
                sigs.update(d["sigs"])
                for k, v in d["counters"].items():
                    tot["counters"][k] = tot["counters"].get(k, 0) + v
                tot["samples"] = (tot["samples"] + d["samples"])[:4]
                tot["violations"] += d["violations"]
                tot["harness_errors"] += d["harness_errors"]
            else:
                err = open(p[3], "rb").read()[-2500:].decode(errors="replace")
                cur = open(p[2]).read().strip() if os.path.exists(p[2]) else ""
                if rc < 0 and -rc != signal.SIGKILL and cur:
                    tot["violations"].append({"case": int(cur), "message": f"the interpreter died (signal {-rc}): {err}"})
                else:
                    tot["harness_errors"].append({"case": int(cur or -1), "message": f"worker ended with {rc}: {err}"})
    for f in os.listdir(tmp):
        os.unlink(f"{tmp}/{f}")
    os.rmdir(tmp)
    tot["violations"].sort(key=lambda v: v["case"])
    tot.update(property=prop, variant="python -O" if opt.get("--optimize") == "1" else "python", seed=seed, distinct=len(sigs), wall_s=time.time() - t0, max_error_over_bound=0)
    tot["violations"] = tot["violations"][:5]
    json.dump(tot, open(opt["--out"], "w")) if "--out" in opt else print(json.dumps(tot, indent=1))
    return 2 if tot["harness_errors"] else 1 if tot["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
