"""C19: every Python entry point returns the documented interpolant, in the shape of the observations."""
import itertools
import numpy as np
import interpn as pkg
from common import *

def uneven_at(g, i, f):
    """Even axis with interval i stretched by the factor f (all later nodes shift)."""
    dt = g.dtype.type
    h = g[1] - g[0]
    o = g.copy()
    o[i + 1:] = (o[i + 1:] + dt(f) * h).astype(dt)
    return o

def subset(nd, k, lv):
    """Indices into the product of k-per-axis positions: everything, or at most two axes off the middle."""
    if lv == "all":
        return None
    mid = k // 2
    idx = []
    for t in itertools.product(range(k), repeat=nd):
        if sum(x != mid for x in t) <= 2:
            idx.append(int(np.ravel_multi_index(t, (k,) * nd)))
    return np.array(idx)

def grid_sets(nd, m, dt, thorough):
    """(name, letters, grids)"""
    mn = min_n(m)
    lens = []
    if nd == 1:
        lens = [(mn + k,) for k in range(0, 9 if thorough else 6)] + [(17,), (64,), (200,)]
    elif nd <= 3:
        base = [mn, mn + 1, mn + 3][:nd]
        lens = [tuple(p) for p in itertools.permutations(base)] + [(mn,) * nd]
    elif nd == 4:
        base = [mn, mn + 1, mn + 2, mn + 3] if kind(m) != "cubic" else [mn, mn + 1, mn, mn + 1]
        lens = [tuple(base), tuple(base[::-1]), tuple(base[1:] + base[:1])]
    else:
        small = [mn] * nd
        for a in range(nd):
            if kind(m) == "cubic" and nd >= 7 and not thorough and a not in (0, nd // 2, nd - 1):
                continue
            v = list(small)
            v[a] = mn + 1
            lens.append(tuple(v))
    out = []
    for li, ln in enumerate(lens):
        specs = ["d" * nd, "D" * nd]
        if nd <= 3 or li == 0:
            specs += ["g" * nd, "G" * nd]
        if li < (2 if nd <= 4 else len(lens)):
            # a single uneven axis, each in turn
            for a in range(nd):
                if nd > 1 and (kind(m) != "cubic" or nd < 7 or thorough or a == li):
                    s = ["d"] * nd
                    s[a] = "D"
                    specs.append("".join(s))
        for sp in dict.fromkeys(specs):
            out.append((f"{'x'.join(map(str, ln))}:{sp}", sp, [axis(sp[a], ln[a], a, dt) for a in range(nd)]))
        if nd <= 3:
            for a in range(nd):
                if ln[a] < 3:
                    continue
                for i in range(min(ln[a] - 1, 8)):
                    for f in (2.0 ** -10, 1.0, -0.5) if nd <= 2 else (2.0 ** -10,):
                        g = [axis("d", ln[b], b, dt) for b in range(nd)]
                        g[a] = uneven_at(g[a], i, f)
                        out.append((f"{'x'.join(map(str, ln))}:d,axis{a}cell{i}x{1 + f}", "U", g))
        if nd == 1 and dt is np.float64:
            for i in range(min(ln[0] - 1, 8)):
                if ln[0] >= 3:
                    g = uneven_at(axis("d", ln[0], 0, dt), i, 2.0 ** -20)
                    out.append((f"{ln[0]}:d,cell{i} by 2^-20", "U", [g]))
    return out

def reg_grids(grids):
    """The nodes the regular description of these axes stands for, exactly."""
    o = []
    for g in grids:
        s, h = L(g[0]), L(g[1] - g[0])
        o.append(s + h * np.arange(len(g)).astype(L))
    return o

def entries(rep, m, reg_ok, grids, vals, obs, refs, idx, what):
    dt = vals.dtype.type
    n = obs[0].shape[0]
    def judge(name, got, ref):
        rep.transitions += 1
        if not isinstance(got, np.ndarray) or got.shape != obs[0].shape or got.dtype != np.dtype(dt):
            rep.violation(f"{what} {name}: returned {type(got).__name__} {getattr(got, 'shape', None)} {getattr(got, 'dtype', None)} for observations {obs[0].shape} {np.dtype(dt)}")
            return
        e, r = ref.compare(got, idx)
        rep.evals += n
        if e:
            rep.violation(f"{what} {name}: {e}; grids {[g.tolist() if len(g) < 12 else len(g) for g in grids]}")
        rep.ratio(r)
    fresh = lambda: np.full(n, np.nan, dtype=dt)
    rec, reg = refs
    for is_reg in ([False, True] if reg_ok else [False]):
        ref = reg if is_reg else rec
        nm = "regular" if is_reg else "rectilinear"
        c = make(m, is_reg, grids, vals)
        judge(f"{nm} class eval", c.eval(obs), ref)
        o = fresh()
        r = c.eval(obs, o)
        judge(f"{nm} class eval(out), result", r, ref)
        judge(f"{nm} class eval(out), out", o, ref)
        judge(f"{nm} class eval_unchecked", c.eval_unchecked(obs), ref)
        o = fresh()
        c.eval_unchecked(tuple(obs), o)
        judge(f"{nm} class eval_unchecked(out)", o, ref)
        judge(f"{nm} raw", raw_call(m, is_reg, grids, vals, obs, fresh()), ref)
        if m == "cubicL":
            C = CLASSES[("cubic", is_reg)]
            if is_reg:
                d, s, h = params(grids, dt)
                c = C.new(d, s, h, vals)
            else:
                c = C.new(list(grids), vals)
            judge(f"{nm} class with the default extrapolation", c.eval(obs), ref)
    det = reg if reg_ok and all(np.all(np.diff(g) == np.diff(g)[0]) for g in grids) else rec
    judge("helper", helper(m, grids, vals, obs), det)
    o = fresh()
    judge("helper(out), result", helper(m, grids, vals, obs, out=o), det)
    judge("helper(out), out", o, det)
    if reg_ok:
        judge("helper(assume_regular)", helper(m, grids, vals, obs, assume_regular=True), reg)
    if m == "cubicL":
        judge("helper with the default extrapolation", pkg.interpn(obs, grids, vals, method="cubic"), det)
    if m == "linear":
        judge("helper with the default method", pkg.interpn(obs, grids, vals), det)
    rep.traces += 1

def value_case(m, dt, nd, name, sp, grids, thorough):
    def run(rep):
        reg_ok = regular(sp)
        lv = "full" if nd == 1 else "mid" if nd == 2 and not thorough else "full" if nd == 2 else "core" if nd <= (3 if kind(m) == "cubic" and not thorough else 4) else "sides"
        pos = [positions(g, lv) for g in grids]
        sub = "all"
        if nd > 4 and len(set(map(len, pos))) == 1 and (kind(m) == "cubic" or nd > 6):
            sub = "pairs"
        idx = subset(nd, len(pos[0]), sub)
        vals = dense(int(np.prod([len(g) for g in grids])), nd, dt)
        rec = Ref(m, grids, vals, pos)
        reg = Ref(m, reg_grids(grids), vals, pos) if reg_ok else rec
        obs = product(pos)
        if idx is not None:
            obs = [np.ascontiguousarray(o[idx]) for o in obs]
        rep.states += obs[0].size
        entries(rep, m, reg_ok, grids, vals, obs, (rec, reg), idx, f"{m} {np.dtype(dt)} {name}")
        rep.sample(f"{m} {np.dtype(dt)} {name}: {obs[0].size} points through every entry point")
    return run

# ---- shapes and memory layouts
def shapes():
    return [(), (1,), (7,), (0,), (7, 1), (1, 7), (3, 4), (4, 3), (0, 3), (3, 0), (2, 3, 4), (1, 1, 1), (2, 1, 5, 1), (2, 2, 2, 2, 2)]
def layout(x, name):
    """The same logical array with another memory layout."""
    if name == "C":
        return np.array(x, order="C")
    if name == "F":
        return np.array(x, order="F")
    if x.ndim == 0:
        return np.array(x)
    if name == "strided":
        b = np.full(tuple(2 * s + 1 for s in x.shape), 7.25, dtype=x.dtype)
        v = b[tuple(slice(1, 2 * s + 1, 2) for s in x.shape)]
        v[...] = x
        return v
    if name == "reversed":
        b = np.array(x[tuple(slice(None, None, -1) for _ in x.shape)], order="C")
        return b[tuple(slice(None, None, -1) for _ in x.shape)]
    if name == "transposed":
        return np.array(x.transpose(), order="C").transpose()
    if name == "offset":
        b = np.full(x.size + 3, 7.25, dtype=x.dtype)
        b[3:] = x.ravel()
        return b[3:].reshape(x.shape)
    if name == "swapped":  # last two axes swapped in memory only
        if x.ndim < 3:
            return np.array(x, order="F")
        return np.array(np.swapaxes(x, 0, 1), order="C").swapaxes(0, 1)
    raise KeyError(name)
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "offset", "swapped"]

def pick_points(grids, n, salt):
    """n points cycling through position classes, different on each axis; returns columns and index into product."""
    pos = [positions(g, "core") for g in grids]
    cols = []
    ids = []
    for a, p in enumerate(pos):
        k = (np.arange(n) * (2 * a + 1) + np.arange(n) // (3 + a) + salt) % len(p)
        cols.append(p[k])
        ids.append(k)
    idx = np.ravel_multi_index(ids, [len(p) for p in pos]) if n else np.zeros(0, dtype=int)
    return pos, cols, idx

def shape_case(m, dt, nd, sp):
    def run(rep):
        mn = min_n(m)
        ln = [mn + 1 + (a * 2 + 1) % 3 for a in range(nd)]
        grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
        vals = dense(int(np.prod(ln)), 3, dt)
        refs = {}
        for sh in shapes():
            n = int(np.prod(sh))
            pos, cols, idx = pick_points(grids, n, len(sh))
            if "ref" not in refs:
                refs["ref"] = Ref(m, grids, vals, pos)
            ref = refs["ref"]
            base = [c.reshape(sh) for c in cols]
            combos = [(l,) * nd for l in LAYOUTS]
            if nd > 1:
                combos += [(LAYOUTS[i % 7], LAYOUTS[(i * 3 + 2) % 7]) + (LAYOUTS[(i + 4) % 7],) * (nd - 2) for i in range(7)]
            for cb in combos:
                obs = [layout(base[a], cb[a]) for a in range(nd)]
                for kw in ({}, {"assume_regular": True}) if sp == "d" else ({},):
                    for vl in ("flat", "C", "F", "strided", "reversed", "transposed") if sh in ((7,), (3, 4)) else ("flat",):
                        v = vals if vl == "flat" else layout(vals.reshape(ln), vl)
                        gs = grids if vl in ("flat", "C") else [layout(g, ["strided", "reversed", "offset"][(i + len(vl)) % 3]) for i, g in enumerate(grids)]
                        rep.states += n
                        rep.transitions += 1
                        got = helper(m, gs, v, obs, **kw)
                        what = f"{m} {np.dtype(dt)} {nd}-D observations {sh} {cb} values {vl} {kw}"
                        if not isinstance(got, np.ndarray) or got.shape != sh or got.dtype != np.dtype(dt):
                            rep.violation(f"{what}: returned {type(got).__name__} {getattr(got, 'shape', None)} {getattr(got, 'dtype', None)}")
                            continue
                        e, r = ref.compare(np.array(got, order="C"), idx)
                        if e:
                            rep.violation(f"{what}: {e}")
                        rep.trace(n)
                        rep.ratio(r)
                        rep.outcome((sh, cb, vl))
            # broadcast observations (stride 0)
            if len(sh) == 2 and n:
                p0 = pos[0][:sh[0]] if sh[0] <= len(pos[0]) else None
                if p0 is not None:
                    obs = [np.broadcast_to(positions(grids[a], "core")[: sh[0]].reshape(sh[0], 1), sh) for a in range(nd)]
                    ids = [np.broadcast_to(np.arange(sh[0]).reshape(-1, 1), sh).ravel() for _ in range(nd)]
                    if all(len(p) >= sh[0] for p in pos):
                        ii = np.ravel_multi_index(ids, [len(p) for p in pos])
                        got = helper(m, grids, vals, obs)
                        rep.transitions += 1
                        e, r = ref.compare(np.array(got, order="C"), ii) if got.shape == sh else (f"shape {got.shape}", 0)
                        if e:
                            rep.violation(f"{m} {np.dtype(dt)} {nd}-D broadcast observations {sh}: {e}")
        # class construction from other layouts, sequences, and directly from fields
        pos, cols, idx = pick_points(grids, 23, 1)
        ref = refs["ref"]
        for is_reg in ([True, False] if sp == "d" else [False]):
            for vl in ["C", "F", "strided", "reversed", "transposed", "offset"]:
                v = layout(vals.reshape(ln), vl)
                gs = [layout(g, ["strided", "reversed", "offset", "C"][(i + len(vl)) % 4]) for i, g in enumerate(grids)]
                C = CLASSES[(kind(m), is_reg)]
                kw = {"linearize_extrapolation": m == "cubicL"} if kind(m) == "cubic" else {}
                if is_reg:
                    d, s, h = params(gs, dt)
                    c = C.new(d, layout(s, "strided"), layout(h, "reversed"), v, **kw)
                else:
                    c = C.new(gs, v, **kw)
                e, r = ref.compare(c.eval(cols), idx)
                rep.transitions += 1
                rep.trace(23)
                if e:
                    rep.violation(f"{m} {np.dtype(dt)} {nd}-D class({'regular' if is_reg else 'rectilinear'}) from {vl} values: {e}")
        # list lengths
        for n in list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 1000, 4097]:
            pos, cols, idx = pick_points(grids, n, 2)
            for nm, got in (("helper", helper(m, grids, vals, cols)), ("class", make(m, sp == "d", grids, vals).eval(cols)), ("raw", raw_call(m, sp == "d", grids, vals, cols, np.full(n, np.nan, dtype=dt)))):
                e, r = ref.compare(got, idx)
                rep.trace(n)
                rep.states += n
                if e:
                    rep.violation(f"{m} {np.dtype(dt)} {nd}-D {nm} with {n} points: {e}")
    return run

# ---- does the helper notice that a grid is not even, wherever it stops being even?
def detect_grids(n, dt, nd, a):
    """Even axes, but one: one interval stretched, all from there on stretched, or one node moved."""
    fs = (1.0, 2.0 ** -6) if dt is np.float32 else (1.0, 2.0 ** -10, 2.0 ** -20, 2.0 ** -36)
    near = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 98, 99, 100, 126, 127, 128, 254, 255, 256, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, n // 2, n - 4, n - 3, n - 2}
    iv = [i for i in range(n - 1) if nd == 1 and n <= 33 or i in near]
    for i in iv:
        for f in fs:
            for how in ("cell", "rest", "node"):
                if how == "node" and not 0 < i < n - 1 or how == "node" and f >= 1 or how == "rest" and i == 0:
                    continue
                g = axis("d", n, a, dt)
                h = g[1] - g[0]
                if how == "cell":
                    g = uneven_at(g, i, f)
                elif how == "rest":
                    g[i + 1:] = (g[i + 1:] + dt(f) * h * np.arange(1, n - i)).astype(dt)
                else:
                    g[i] += dt(f) * h
                yield i, f, how, g

def detect_case(m, dt, n, nd, a):
    def run(rep):
        mn = min_n(m)
        for i, f, how, g in detect_grids(n, dt, nd, a):
            grids = [axis("d", mn, b, dt) for b in range(nd)]
            grids[a] = g
            vals = dense(int(np.prod([len(x) for x in grids])), n, dt)
            cells = sorted({c for c in (0, 1, i - 2, i - 1, i, i + 1, i + 2, n // 3, n // 2, n - 3, n - 2) if 0 <= c < n - 1})
            fr = lambda c, q: g[c] + (g[c + 1] - g[c]) * dt(q)
            pos = [positions(x, "sides")[1:2] for x in grids]
            pos[a] = np.array([g[0] - dt(0.75)] + [fr(c, q) for c in cells for q in (0.0, 0.28125, 0.6875)] + [g[-1], g[-1] + dt(1.25)], dtype=dt)
            ref = Ref(m, grids, vals, pos)
            obs = product(pos)
            rep.states += obs[0].size
            e, r = ref.compare(helper(m, grids, vals, obs))
            rep.trace(obs[0].size)
            rep.ratio(r)
            if e:
                rep.violation(f"{m} {np.dtype(dt)} helper on {nd} axes, axis {a} of {n} nodes even but for {how} {i} ({f:.3g} steps): {e}")
    return run

def cases(thorough):
    for m in METHODS:
        for dn, dt in F.items():
            for n in [3, 5, 8, 9, 17, 33, 65, 66, 67, 101, 129, 130, 257, 513, 1001, 1025, 4099] if thorough or m in ("linear", "nearest") else [5, 33, 67, 130, 1025]:
                if n >= min_n(m):
                    yield f"detect/{m}/{dn}/{n}", detect_case(m, dt, n, 1, 0)
            for nd in range(2, max_nd(m) + 1):
                for a in range(nd):
                    if nd <= (4 if kind(m) == "cubic" and not thorough else 6) or a == nd - 1:
                        yield f"detect/{m}/{dn}/{nd}/{a}", detect_case(m, dt, 70 if nd <= 4 else 7, nd, a)
    for m in METHODS:
        for dn, dt in F.items():
            for nd in range(1, max_nd(m) + 1):
                for name, sp, grids in grid_sets(nd, m, dt, thorough):
                    yield f"value/{m}/{dn}/{name}", value_case(m, dt, nd, name, sp, grids, thorough)
            for nd in (1, 2, 3, 4) if thorough else (1, 2, 3):
                for sp in "dDG":
                    yield f"shape/{m}/{dn}/{nd}{sp}", shape_case(m, dt, nd, sp)
