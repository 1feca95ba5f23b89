"""Reference interpolants in extended precision, written from the documentation, one point at a time."""
import numpy as np

L = np.longdouble


def _slope(g, j):
    """slope at inner node j as coefficients on j-1, j, j+1: distance-weighted central difference"""
    h0, h1 = g[j] - g[j - 1], g[j + 1] - g[j]
    s = h0 + h1
    cr, cl = h0 / (s * h1), h1 / (s * h0)
    return np.array([-cl, cl - cr, cr], dtype=L)


def cell(g, x):
    i = int(np.searchsorted(g, x, side="right")) - 1
    return min(max(i, 0), len(g) - 2)


def linear_w(g, x):
    i = cell(g, x)
    t = (x - g[i]) / (g[i + 1] - g[i])
    return i, np.array([1 - t, t], dtype=L)


def cubic_w(g, x, linearize):
    n = len(g)
    i = cell(g, x)
    h = g[i + 1] - g[i]
    w = np.zeros(4, dtype=L)
    if 0 < i < n - 2:
        t = (x - g[i]) / h
        h01 = 3 * t**2 - 2 * t**3
        h10 = t - 2 * t**2 + t**3
        h11 = t**3 - t**2
        w[1] += 1 - h01
        w[2] += h01
        w[0:3] += h10 * h * _slope(g, i)
        w[1:4] += h11 * h * _slope(g, i + 1)
        return i - 1, w
    low = i == 0
    inner, edge = (1, 0) if low else (n - 2, n - 1)
    first = 0 if low else n - 4
    s = (g[inner] - x) / h if low else (x - g[inner]) / h
    k0 = np.zeros(4, dtype=L)
    k0[inner - 1 - first : inner + 2 - first] = h * _slope(g, inner) * (-1 if low else 1)
    y0 = np.zeros(4, dtype=L)
    y0[inner - first] = 1
    dy = -y0.copy()
    dy[edge - first] += 1
    if linearize and (x < g[0] or x > g[n - 1]):
        w = y0 + dy + (2 * dy - k0) * (s - 1)
    else:
        w = y0 + k0 * s + (dy - k0) * s * s
    return first, w


def nearest_w(g, x):
    i = cell(g, x)
    t = (x - g[i]) / (g[i + 1] - g[i])
    return (i if t <= L(0.5) else i + 1), np.ones(1, dtype=L)


def evaluate(grids, vals, x, method, linearize=True):
    """(value, magnitude of the terms); vals has one axis per grid"""
    block = vals
    ws = []
    for a, g in enumerate(grids):
        xa = L(x[a])
        if method == "linear":
            i, w = linear_w(g, xa)
        elif method == "cubic":
            i, w = cubic_w(g, xa, linearize)
        else:
            i, w = nearest_w(g, xa)
        ws.append(w)
        block = block[tuple([slice(None)] * a + [slice(i, i + len(w))])]
    if method == "nearest":
        return block.reshape(-1)[0], None
    v = block.astype(L)
    m = np.abs(v)
    for w in ws:
        k = len(w)
        v = (w[:, None] * v.reshape(k, -1)).sum(axis=0)
        m = (np.abs(w)[:, None] * m.reshape(k, -1)).sum(axis=0)
    return v.reshape(-1)[0], m.reshape(-1)[0]


def many(grids, vals, cols, method, linearize=True):
    """grids: list of 1-D arrays; vals: N-d array; cols: list of flat coordinate arrays"""
    gs = [np.asarray(g).astype(L) for g in grids]
    n = len(cols[0])
    out, mag = np.empty(n, dtype=L), np.empty(n, dtype=L)
    if method == "nearest":
        out = np.empty(n, dtype=vals.dtype)
    seen = {} if n > 64 else None  # large batches repeat a few points
    for k in range(n):
        if seen is not None:
            key = b"".join(c[k].tobytes() for c in cols)
            if key in seen:
                out[k], mag[k] = seen[key]
                continue
        v, m = evaluate(gs, vals, [c[k] for c in cols], method, linearize)
        out[k] = v
        mag[k] = 0 if m is None else m
        if seen is not None:
            seen[key] = out[k], mag[k]
    return out, mag
