"""Counters, grids, positions, the numpy reference, and uniform access to the Python entry points."""
import itertools
import numpy as np
import interpn as pkg
from interpn import raw

F = {"f4": np.float32, "f8": np.float64}
METHODS = ["linear", "nearest", "cubicL", "cubicQ"]  # cubic with and without linearized extrapolation
def kind(m):
    return "cubic" if m.startswith("cubic") else m
def min_n(m):
    return 4 if kind(m) == "cubic" else 2
def max_nd(m):
    return 6 if m == "nearest" else 8

class Rep:
    def __init__(self, prop, tier):
        self.prop, self.thorough, self.key = prop, tier == "thorough", ""
        self.states = self.transitions = self.traces = self.evals = self.skipped = self.nviol = 0
        self.viol, self.samples, self.notes, self.maxratio = [], [], {}, (0.0, "")
        self.outs = set()
    def violation(self, what, key=None):
        self.nviol += 1
        if len(self.viol) < 12:
            self.viol.append([key or self.key, what[:1500]])
    def trace(self, points):
        self.traces += 1
        self.evals += points
        self.transitions += max(0, points - 1)
    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s[:400])
    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n
    def outcome(self, x):
        if len(self.outs) < 200000:
            self.outs.add(x)
    def ratio(self, r):
        if r > self.maxratio[0]:
            self.maxratio = (round(float(r), 4), self.key)
    def result(self):
        return {"states": self.states, "transitions": self.transitions, "traces": self.traces, "evaluations": self.evals,
                "outcomes": len(self.outs), "skipped": self.skipped, "violations": self.nviol, "viol": self.viol,
                "samples": self.samples, "notes": self.notes, "maxratio": self.maxratio}

# ------------------------------------------------------------------ grids and positions
def axis(sp, n, a, dt):
    """Nodes of one axis. sp: d even dyadic, g even generic, D uneven dyadic, G uneven generic."""
    if sp == "d":
        s, h = [-1.5, 2.0, 0.0, -8.0, 0.25, -0.75, 5.0, 1.0][a % 8], [0.5, 1.0, 2.0, 0.25, 4.0, 0.125, 1.0, 0.5][a % 8]
        return np.array([s + h * i for i in range(n)], dtype=dt)
    if sp == "g":
        s, h = [0.3, -1.7, 0.0, 10.1, -0.9, 3.3, -6.1, 0.7][a % 8], [0.1, 0.7, 1 / 3, 1.9, 0.05, 2.3, 0.6, 0.17][a % 8]
        return (dt(s) + dt(h) * np.arange(n).astype(dt)).astype(dt)
    inc = [0.5, 2.0, 0.25, 1.0, 4.0, 0.5, 1.5, 0.75] if sp == "D" else [0.37, 1.91, 0.083, 0.61, 1.13, 0.29, 2.17, 0.7]
    x = ([-2.0, 0.5, -4.25, 1.0, 0.0, -1.0, 3.0, -0.5] if sp == "D" else [0.1, -3.3, 1.7, -0.2, 6.1, -7.7, 0.9, 2.2])[a % 8]
    v = []
    for i in range(n):
        v.append(x)
        x += inc[(i * 3 + a * 5) % 8]
    return np.array(v, dtype=dt)
def regular(sp):
    return all(s in "dg" for s in sp)

def dense(n, salt, dt):
    i = (np.arange(n, dtype=np.uint64) + np.uint64(salt * 7919 + 1)) * np.uint64(0x9E3779B97F4A7C15)
    i ^= i >> np.uint64(29)
    i *= np.uint64(0xBF58476D1CE4E5B9)
    i ^= i >> np.uint64(32)
    return (((i % np.uint64(2047)).astype(np.float64) - 1023.0) / 1024.0).astype(dt)

def positions(g, lv):
    """Position classes on one axis, in the type of the grid."""
    dt = g.dtype.type
    n = len(g)
    h0, h1 = g[1] - g[0], g[-1] - g[-2]
    fr = lambda i, f: g[i] + (g[i + 1] - g[i]) * dt(f)
    if lv == "full":
        v = [g[0] - h0 * dt(k) for k in (100, 7.3, 1, 0.25)]
        for i in range(n):
            v.append(g[i])
            if i + 1 < n:
                v += [fr(i, 0.25), fr(i, 0.5), fr(i, 0.8125), fr(i, 1 / 3)]
        v += [g[-1] + h1 * dt(k) for k in (0.25, 1, 7.3, 100)]
    elif lv == "mid":
        v = [g[0] - h0 * dt(3), g[0] - h0 * dt(0.25)]
        for i in range(n):
            v.append(g[i])
            if i + 1 < n:
                v += [fr(i, 0.25), fr(i, 0.625)]
        v += [g[-1] + h1 * dt(0.25), g[-1] + h1 * dt(3)]
    elif lv == "core":
        v = [g[0] - h0 * dt(0.75), fr(0, 0.375)]
        if n > 3:
            v.append(fr((n - 1) // 2, 0.625))
        if n > 2:
            v.append(fr(n - 2, 0.25))
        v.append(g[-1] + h1 * dt(1.25))
    else:  # sides
        v = [g[0] - h0 * dt(0.75), fr((n - 1) // 2, 0.375), g[-1] + h1 * dt(1.25)]
    return np.array(v, dtype=dt)

def product(pos):
    """Columns of the C-ordered product of per-axis positions."""
    m = np.meshgrid(*pos, indexing="ij")
    return [np.ascontiguousarray(x.ravel()) for x in m]

# ------------------------------------------------------------------ reference model
L = np.longdouble
def axis_weights(m, lin, nodes, x, eps, exact):
    """Dense weight row of one position, error bound (units of eps), ambiguity. From the definitions."""
    n = len(nodes)
    w = np.zeros(n, dtype=L)
    below, above = x < nodes[0], x > nodes[-1]
    cell = 0 if below else n - 2 if above else min(max(int(np.searchsorted(nodes, x, side="left")) - 1, 0), n - 2)
    h = nodes[cell + 1] - nodes[cell]
    t = (x - nodes[cell]) / h
    tf = abs(float(t))
    big = max(abs(float(x)), abs(float(nodes[0])), abs(float(nodes[-1])))
    if m == "nearest":
        k, amb = cell, False
        if above:
            k = n - 1
        elif not below:
            if t > L(0.5):
                k = cell + 1
            amb = not exact and abs(float((t - L(0.5)) * h)) <= 8 * eps * big
        w[k] = 1
        return w, 0.0, amb
    if m == "linear":
        w[cell], w[cell + 1] = 1 - t, t
        return w, (2 + tf) * 4 + 4 * big / float(h), False
    def slope(j):
        s = np.zeros(n, dtype=L)
        hl, hr = nodes[j] - nodes[j - 1], nodes[j + 1] - nodes[j]
        a, b = hr / (hl + hr), hl / (hl + hr)  # weights of the backward and forward difference
        s[j - 1] -= a / hl
        s[j] += a / hl - b / hr
        s[j + 1] += b / hr
        return s
    sec = np.zeros(n, dtype=L)
    sec[cell], sec[cell + 1] = -1 / h, 1 / h
    if cell == 0:
        m1 = slope(1)
        m0 = 2 * sec - m1
    elif cell == n - 2:
        m0 = slope(n - 2)
        m1 = 2 * sec - m0
    else:
        m0, m1 = slope(cell), slope(cell + 1)
    out = below or above
    if out and lin:
        node, ms = (0, m0) if below else (n - 1, m1)
        w[node] = 1
        w = w + (x - nodes[node]) * ms
    else:
        t2, t3 = t * t, t * t * t
        w[cell] += 2 * t3 - 3 * t2 + 1
        w[cell + 1] += 3 * t2 - 2 * t3
        w = w + h * ((t3 - 2 * t2 + t) * m0 + (t3 - t2) * m1)
    st = 0 if n == 4 else min(max(cell - 1, 0), n - 4)
    hs = [float(nodes[k + 1] - nodes[k]) for k in range(st, st + 3)]
    r = max(1.0, max(float(h) / k for k in hs))
    p = 1 + tf if out and lin else (1 + tf) ** 2 * (1 + tf if out or tf > 1.5 else 1)
    err = p * (1 + r) * (6 + 3 * big / min(hs)) + (1 if out and lin else 1 + tf) * (1 + r) * 4 * big / float(h)
    return w, err, False

class Ref:
    """Reference results over the product of positions: value, tolerance, ambiguity (flat, C order)."""
    def __init__(self, method, grids, vals, pos, exact=False):
        m, lin = kind(method), method == "cubicL"
        dt = vals.dtype.type
        eps = float(np.finfo(dt).eps)
        nd = len(grids)
        rows = []
        for a in range(nd):
            nodes = grids[a].astype(L)
            rows.append([axis_weights(m, lin, nodes, L(x), eps, exact) for x in pos[a]])
        cur = vals.astype(L).reshape([len(g) for g in grids])
        for a in range(nd):
            # contract the first remaining axis, append the positions at the end
            W = np.array([r[0] for r in rows[a]], dtype=L)
            cur = np.tensordot(cur, W, axes=([0], [1]))
        self.shape = tuple(len(p) for p in pos)
        self.val = cur.reshape(-1)
        maxv = float(np.max(np.abs(vals.astype(np.float64)))) if vals.size else 0.0
        pr, sm, amb = np.ones(()), np.full((), 2.0), np.zeros((), dtype=bool)
        for a in range(nd):
            nm = np.array([max(1.0, float(np.sum(np.abs(r[0])))) for r in rows[a]])
            er = np.array([r[1] for r in rows[a]])
            pr = np.multiply.outer(pr, nm)
            sm = np.add.outer(sm, er / nm)
            amb = np.logical_or.outer(amb, np.array([r[2] for r in rows[a]]))
        self.tol = (eps * maxv * pr * sm).reshape(-1) if m != "nearest" else np.zeros(self.val.shape)
        self.amb = amb.reshape(-1)
    def compare(self, got, idx=None):
        """None, or a description of the first difference; and the worst ratio."""
        v, t, a = (self.val, self.tol, self.amb) if idx is None else (self.val[idx], self.tol[idx], self.amb[idx])
        g = np.asarray(got).reshape(-1)
        if g.shape != v.shape:
            return f"{g.shape[0]} results for {v.shape[0]} points", 0.0
        d = np.abs(g.astype(L) - v)
        ok = (d <= t) | a
        if not ok.all():
            i = int(np.argmin(ok))
            return f"point {i}: got {g[i]!r}, expected {float(v[i])!r} (difference {float(d[i]):.3g}, tolerance {float(t[i]):.3g})", 0.0
        with np.errstate(all="ignore"):
            q = np.where((t > 0) & ~a, d / np.where(t > 0, t, 1), 0)
        return None, float(q.max()) if q.size else 0.0

# ------------------------------------------------------------------ entry points
CLASSES = {("linear", True): pkg.MultilinearRegular, ("linear", False): pkg.MultilinearRectilinear,
           ("cubic", True): pkg.MulticubicRegular, ("cubic", False): pkg.MulticubicRectilinear,
           ("nearest", True): pkg.NearestRegular, ("nearest", False): pkg.NearestRectilinear}

def params(grids, dt):
    dims = [len(g) for g in grids]
    starts = np.array([g[0] for g in grids], dtype=dt)
    steps = np.array([g[1] - g[0] for g in grids], dtype=dt)
    return dims, starts, steps

def make(method, reg, grids, vals):
    C = CLASSES[(kind(method), reg)]
    kw = {"linearize_extrapolation": method == "cubicL"} if kind(method) == "cubic" else {}
    if reg:
        dims, starts, steps = params(grids, vals.dtype.type)
        return C.new(dims, starts, steps, vals, **kw)
    return C.new(list(grids), vals, **kw)

def raw_fn(method, reg, dt):
    return getattr(raw, f"interpn_{kind(method)}_{'regular' if reg else 'rectilinear'}_{'f64' if dt is np.float64 else 'f32'}")
def raw_call(method, reg, grids, vals, obs, out):
    dt = vals.dtype.type
    f = raw_fn(method, reg, dt)
    lin = [method == "cubicL"] if kind(method) == "cubic" else []
    if reg:
        dims, starts, steps = params(grids, dt)
        f(dims, starts, steps, vals, *lin, obs, out)
    else:
        f(list(grids), vals, *lin, obs, out)
    return out
def helper(method, grids, vals, obs, **kw):
    if kind(method) == "cubic":
        kw["linearize_extrapolation"] = method == "cubicL"
    return pkg.interpn(obs, grids, vals, method=kind(method), **kw)
def raw_bounds(reg, grids, obs, atol, out, dt):
    f = getattr(raw, f"check_bounds_{'regular' if reg else 'rectilinear'}_{'f64' if dt is np.float64 else 'f32'}")
    if reg:
        dims, starts, steps = params(grids, dt)
        f(dims, starts, steps, obs, atol, out)
    else:
        f(list(grids), obs, atol, out)
    return out
