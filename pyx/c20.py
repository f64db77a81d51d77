"""C20: JSON round trips of every class restore the configuration and every value bit for bit."""
import json, itertools
import numpy as np
from interpn.serialization import ArrayF32, ArrayF64
from common import *

U = {np.float32: np.uint32, np.float64: np.uint64}
def bits(a):
    return a.view(U[a.dtype.type])

def specials(dt, thorough):
    """Every exponent with several mantissas and both signs: all the finite magnitudes there are, by class."""
    mb, eb = (23, 8) if dt is np.float32 else (52, 11)
    full = (1 << mb) - 1
    ms = [0, 1, 2, full, full - 1, full >> 1, (full >> 1) + 1, int("01" * 26, 2) & full, int("10" * 26, 2) & full, int("0011" * 13, 2) & full, 0x5DEECE66D1234 & full, 0x123456789ABCD & full]
    ms += [1 << k for k in range(1, mb)] if thorough or dt is np.float32 else [1 << k for k in range(1, mb, 5)]
    if thorough:
        ms += [full ^ (1 << k) for k in range(mb)] + [(0x9E3779B97F4A7C15 * (k + 1) >> 7) & full for k in range(200)]
    ms = list(dict.fromkeys(ms))
    exps = range((1 << eb) - 1)
    v = np.array([[(e << mb) | m for m in ms] for e in exps], dtype=U[dt]).ravel()
    v = np.concatenate([v, v | U[dt](1 << (mb + eb))])
    dec = [0.1, 0.2, 0.3, 1 / 3, 2 / 3, np.pi, np.e, 1e22, 1e23, 1e21, 123456789.123, 5e-324, 2.2250738585072011e-308, 9007199254740993.0, 4.35, 0.5, 1e15, 1e16, 1e17, 16777217.0, 1.1754943508222875e-38, 3.4028234663852886e38]
    with np.errstate(all="ignore"):
        d = np.array(dec + [-x for x in dec], dtype=dt)
    return np.concatenate([v.view(dt), d[np.isfinite(d)]])

def routes(C):
    return {
        "model_dump_json": lambda c: C.model_validate_json(c.model_dump_json()),
        "json.dumps(model_dump())": lambda c: C.model_validate(json.loads(json.dumps(c.model_dump()))),
        "model_dump": lambda c: C.model_validate(c.model_dump()),
        "model_dump(json)": lambda c: C.model_validate(c.model_dump(mode="json")),
        "model_dump_json(indent)": lambda c: C.model_validate_json(c.model_dump_json(indent=2)),
        "json.loads(model_dump_json)": lambda c: C(**json.loads(c.model_dump_json())),
    }

def arrays(c):
    o = []
    for f in ("starts", "steps", "vals"):
        if hasattr(c, f):
            o.append((f, getattr(c, f)))
    if hasattr(c, "grids"):
        o += [(f"grids[{i}]", g) for i, g in enumerate(c.grids)]
    return o

def same(c, d):
    if type(c) is not type(d):
        return f"type {type(d).__name__}"
    if hasattr(c, "starts"):
        if list(c.dims) != list(d.dims):
            return f"dims {d.dims} instead of {c.dims}"
    if hasattr(c, "linearize_extrapolation") and c.linearize_extrapolation is not d.linearize_extrapolation:
        return f"linearize_extrapolation {d.linearize_extrapolation} instead of {c.linearize_extrapolation}"
    a, b = arrays(c), arrays(d)
    if [n for n, _ in a] != [n for n, _ in b]:
        return f"fields {[n for n, _ in b]}"
    for (n, x), (_, y) in zip(a, b):
        if x.dtype != y.dtype or type(x) is not type(y):
            return f"{n}: declared {y.dtype} instead of {x.dtype}"
        p, q = x.data, y.data
        if p.dtype != q.dtype or p.shape != q.shape:
            return f"{n}: {q.dtype}{q.shape} instead of {p.dtype}{p.shape}"
        if not np.array_equal(bits(p), bits(q)):
            i = int(np.argmax(bits(p) != bits(q)))
            return f"{n}[{i}]: {q[i]!r} (0x{int(bits(q)[i]):x}) instead of {p[i]!r} (0x{int(bits(p)[i]):x})"
    return None

def same_results(c, d, obs):
    with np.errstate(all="ignore"):
        a, b = c.eval(obs), d.eval(obs)
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"results {b.dtype}{b.shape} instead of {a.dtype}{a.shape}"
        eq = (bits(a) == bits(b)) | (np.isnan(a) & np.isnan(b))
        if not eq.all():
            i = int(np.argmin(eq))
            return f"result at point {i}: {b[i]!r} instead of {a[i]!r}"
    return None

def check(rep, C, c, obs, what, trips, names=None):
    for rn, f in routes(C).items():
        if names and rn not in names:
            continue
        d = c
        j0 = c.model_dump_json()
        for t in range(1, trips + 1):
            try:
                d = f(d)
            except Exception as e:
                rep.violation(f"{what}: {rn}, trip {t}: {type(e).__name__}: {str(e)[:200]}")
                break
            rep.transitions += 1
            e = same(c, d)
            if e is None and obs is not None:
                e = same_results(c, d, obs)
                rep.evals += len(obs[0])
            if e is None and d.model_dump_json() != j0:
                e = "the JSON text differs"
            if e:
                rep.violation(f"{what}: {rn}, trip {t}: {e}")
                break
        rep.states += sum(len(x.data) for _, x in arrays(c))
        rep.traces += 1

def mk(m, reg, dims_or_grids, starts, steps, vals):
    C = CLASSES[(kind(m), reg)]
    kw = {"linearize_extrapolation": m == "cubicL"} if kind(m) == "cubic" else {}
    return C, (C.new(dims_or_grids, starts, steps, vals, **kw) if reg else C.new(dims_or_grids, vals, **kw))

def config_case(m, reg, dt, nd, sp, salt):
    def run(rep):
        mn = min_n(m)
        ln = [mn + (a * 3 + salt) % (3 if nd < 4 else 2 if nd < 6 else 1) for a in range(nd)]
        grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
        n = int(np.prod(ln))
        sv = specials(dt, False)
        small = np.array([0.0, -0.0, np.finfo(dt).tiny, -np.finfo(dt).tiny, np.finfo(dt).smallest_subnormal, -np.finfo(dt).smallest_subnormal, np.finfo(dt).max, np.finfo(dt).min, 0.1, -1 / 3, 1e20, 16777217.0], dtype=dt)
        tables = {"ordinary": dense(n, salt, dt), "special": np.resize(small, n), "spread": sv[(np.arange(n) * 977 + salt * 31) % len(sv)], "negative zeros": np.full(n, -0.0, dtype=dt), "zeros": np.zeros(n, dtype=dt)}
        obs = product([positions(g, "mid" if nd <= 2 else "core" if nd <= 4 and n < 300 else "sides")[:: 1 if nd < 6 else 2] for g in grids])
        if len(obs[0]) > 400:
            obs = [np.ascontiguousarray(o[:: len(o) // 300]) for o in obs]
        for tn, vals in tables.items():
            C, c = mk(m, reg, [len(g) for g in grids] if reg else grids, np.array([g[0] for g in grids], dtype=dt), np.array([g[1] - g[0] for g in grids], dtype=dt), vals)
            check(rep, C, c, obs, f"{C.__name__} {np.dtype(dt)} {ln} {tn}", 3)
            rep.outcome((C.__name__, str(np.dtype(dt)), tuple(ln), tn))
        rep.sample(f"{C.__name__} {np.dtype(dt)} dims {ln}: {len(tables)} tables x {len(routes(C))} routes x 3 trips")
    return run

def grid_case(m, reg, dt):
    """Special values in the grid fields, each axis in turn."""
    def run(rep):
        mn = min_n(m)
        fi = np.finfo(dt)
        starts = np.array([0.0, -0.0, fi.tiny, -fi.tiny, fi.smallest_subnormal, -fi.smallest_subnormal, 0.1, -1 / 3, 1e20, -1e30, fi.max / 4, fi.min / 2, 16777216.0], dtype=dt)
        steps = np.array([fi.smallest_subnormal, fi.tiny, 0.1, 1 / 3, 1.0, 1e-20, 1e20, fi.max / 16, np.nextafter(dt(1), dt(2)), np.nextafter(dt(1), dt(0))], dtype=dt)
        for nd in (1, 2, 3):
            for a in range(nd):
                for s, h in itertools.product(starts, steps):
                    ln = [mn + (x % 2) for x in range(nd)]
                    vals = dense(int(np.prod(ln)), 5, dt)
                    with np.errstate(all="ignore"):
                        if reg:
                            ss = np.array([axis("g", 3, x, dt)[0] for x in range(nd)], dtype=dt)
                            hs = np.array([axis("g", 3, x, dt)[1] - axis("g", 3, x, dt)[0] for x in range(nd)], dtype=dt)
                            ss[a], hs[a] = s, h
                            obs = [np.array([ss[x] - hs[x] * dt(0.5), ss[x], ss[x] + hs[x] * dt(1.3), ss[x] + hs[x] * dt(9)], dtype=dt) for x in range(nd)]
                            C, c = mk(m, True, ln, ss, hs, vals)
                        else:
                            grids = [axis("G", ln[x], x, dt) for x in range(nd)]
                            g = (s + h * np.arange(ln[a]).astype(dt)).astype(dt)
                            if not (np.all(np.diff(g) > 0) and np.all(np.isfinite(g))):
                                rep.skipped += 1
                                continue
                            grids[a] = g
                            obs = [np.array([x[0], x[-1], x[1], x[0] * dt(0.5) + x[1] * dt(0.5)], dtype=dt) for x in grids]
                            C, c = mk(m, False, grids, None, None, vals)
                        if not all(np.all(np.isfinite(o)) for o in obs):
                            obs = None
                        check(rep, C, c, obs, f"{C.__name__} {np.dtype(dt)} axis {a} start {s!r} step {h!r}", 2, ("model_dump_json", "model_dump"))
        # one axis made of every finite magnitude in order
        if not reg:
            v = np.unique(specials(dt, False))
            v = v[np.isfinite(v)]
            for part in np.array_split(v, max(1, len(v) // 5000)):
                with np.errstate(all="ignore"):
                    ok = np.all(np.diff(part) > 0)
                C = CLASSES[(kind(m), False)]
                kw = {"linearize_extrapolation": m == "cubicL"} if kind(m) == "cubic" else {}
                if ok:
                    c = C.new([part], dense(len(part), 1, dt), **kw)
                    check(rep, C, c, None, f"{C.__name__} {np.dtype(dt)} axis of every magnitude from {part[0]!r}", 2, ("model_dump_json",))
    return run

def values_case(m, reg, dt, part, nparts, thorough):
    """Every class of finite value, as table entries."""
    def run(rep):
        v = specials(dt, thorough)
        v = np.array_split(v, nparts)[part]
        n = len(v)
        C = CLASSES[(kind(m), reg)]
        kw = {"linearize_extrapolation": m == "cubicL"} if kind(m) == "cubic" else {}
        if reg:
            c = C.new([n], np.array([0.0], dtype=dt), np.array([1.0], dtype=dt), v, **kw)
        else:
            c = C.new([np.arange(n).astype(dt)], v, **kw)
        obs = [np.arange(n).astype(dt)] if m in ("linear", "nearest") else None
        check(rep, C, c, obs, f"{C.__name__} {np.dtype(dt)} values {v[0]!r} ...", 2, None if thorough else ("model_dump_json", "model_dump"))
        rep.sample(f"{C.__name__} {np.dtype(dt)}: {n} finite values from {v[0]!r} to {v[-1]!r}")
    return run

def codec_case(dt, part, nparts, thorough):
    """The array field itself, over every class of finite value."""
    def run(rep):
        A = ArrayF32 if dt is np.float32 else ArrayF64
        v = np.array_split(specials(dt, thorough), nparts)[part]
        for chunk in np.array_split(v, max(1, len(v) // 997)):
            a = A(data=chunk)
            for rn, f in (("json", lambda x: A.model_validate_json(x.model_dump_json())), ("dump", lambda x: A.model_validate(x.model_dump())), ("list", lambda x: A(data=x.data.tolist()))):
                b = f(a)
                rep.transitions += 1
                rep.states += len(chunk)
                if b.data.dtype != np.dtype(dt) or b.dtype != a.dtype or not np.array_equal(bits(a.data), bits(chunk)) or not np.array_equal(bits(b.data), bits(chunk)):
                    bad = np.nonzero(bits(b.data) != bits(chunk))[0] if b.data.dtype == np.dtype(dt) and b.data.shape == chunk.shape else [0]
                    rep.violation(f"{A.__name__} via {rn}: {b.data.dtype}, first difference {chunk[bad[0]]!r} -> {b.data[bad[0]]!r}" if len(bad) else f"{A.__name__} via {rn}: {b.data.dtype} {b.dtype}")
            rep.traces += 1
    return run

def cases(thorough):
    for m in METHODS:
        for reg in (True, False):
            for dn, dt in F.items():
                for nd in range(1, max_nd(m) + 1):
                    if kind(m) == "cubic" and nd > 6 and not thorough:
                        continue
                    for sp in ("d", "g") if reg else ("D", "G", "d"):
                        for salt in (0, 1, 2) if nd < 4 else (0,):
                            yield f"config/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}{sp}{salt}", config_case(m, reg, dt, nd, sp, salt)
                yield f"grid/{m}/{'reg' if reg else 'rect'}/{dn}", grid_case(m, reg, dt)
                np_ = 4 if thorough else 2
                for p in range(np_):
                    yield f"values/{m}/{'reg' if reg else 'rect'}/{dn}/{p}", values_case(m, reg, dt, p, np_, False)
    for dn, dt in F.items():
        for p in range(16):
            yield f"codec/{dn}/{p}", codec_case(dt, p, 16, thorough)
