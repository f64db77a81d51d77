"""C23: class, raw and helper bounds checks flag exactly the points outside by more than the tolerance."""
import itertools
from fractions import Fraction
import numpy as np
import interpn as pkg
from common import *
import c19

def ex(x):
    return Fraction(float(x))

def margins(g, atol, dt):
    """(position, expected outside?) on one axis; None is not judged. Positions around both edges, exactly compared.

    The comparison the code makes is in floating point (lo - x against atol, in the type of the data), so positions
    whose exact margin is within rounding of the tolerance are used only when the subtraction is exact."""
    lo, hi = g[0], g[-1]
    t = dt(atol)
    inf = dt(np.inf)
    c = [g[0], g[-1], (g[0] + g[-1]) / dt(2), g[0] + (g[1] - g[0]) / dt(4), g[-2]]
    for e, s in ((lo, -1), (hi, 1)):
        c += [np.nextafter(e, dt(s) * inf), np.nextafter(e, -dt(s) * inf)]
        for f in (0.25, 0.5, 0.9, 1.0, 1.1, 2.0, 5.0, 100.0, 1e6):
            c.append(e + dt(s) * t * dt(f))
        c += [np.nextafter(e + dt(s) * t, dt(s) * inf), np.nextafter(e + dt(s) * t, -dt(s) * inf)]
        h = (hi - lo)
        for f in (2.0 ** -20, 0.125, 1.0, 50.0):
            c.append(e + dt(s) * h * dt(f))
        c.append(dt(s) * np.finfo(dt).max / dt(4))
        c.append(dt(s) * inf)
    out = {}
    eps = Fraction(float(np.finfo(dt).eps))
    for x in c:
        x = dt(x)
        if np.isinf(x):
            out[x] = True
            continue
        mg = max(ex(lo) - ex(x), ex(x) - ex(hi))
        T = ex(t)
        if mg <= 0:
            out[x] = False
        elif abs(mg - T) > 4 * eps * max(abs(ex(x)), abs(ex(lo)), abs(ex(hi)), T):
            out[x] = mg > T
        else:
            # near the tolerance: only where the subtraction from the edge is exact in this type
            d = lo - x if ex(x) < ex(lo) else x - hi
            s_ok = ex(d) == mg and ex(hi + t) == ex(hi) + T and ex(lo - t) == ex(lo) - T
            out[x] = (mg > T) if s_ok else None
    return out

def class_call(c, obs, atol):
    return c.check_bounds(obs, float(atol))

def judge(rep, what, got, exp):
    rep.transitions += 1
    if got.tolist() != exp:
        rep.violation(f"{what}: flags {got.tolist()}, expected {exp}")

def flags_case(m, reg, dt, nd, sp, thorough):
    def run(rep):
        mn = min_n(m)
        ln = [mn + (a * 2 + 1) % 3 if nd <= 4 else mn + (a == nd // 2) for a in range(nd)]
        grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
        vals = dense(int(np.prod(ln)), 1, dt)
        C = make(m, reg, grids, vals)
        edges = grids
        if reg:
            # the upper edge the regular description stands for
            edges = [np.array([g[0], g[0] + (g[1] - g[0]), (dt(g[0]) + dt(len(g) - 2) * dt(g[1] - g[0])), (dt(g[0]) + dt(len(g) - 1) * dt(g[1] - g[0]))], dtype=dt) for g in grids]
        for atol in (0.0, 1e-8, 1e-3, 0.125, 2.0, 1e3):
            M = []
            for a in range(nd):
                mm = margins(edges[a], atol, dt)
                if reg and sp != "d":
                    # the last node is rounded: keep away from it
                    e = edges[a][-1]
                    mm = {x: v for x, v in mm.items() if np.isinf(x) or abs(float(x) - float(e) - float(dt(atol))) > 64 * np.finfo(dt).eps * max(abs(float(e)), float(np.max(np.abs(edges[a]))), atol)}
                    mm = {x: v for x, v in mm.items() if np.isinf(x) or abs(float(x) - float(e)) > 64 * np.finfo(dt).eps * max(abs(float(e)), float(np.max(np.abs(edges[a]))))}
                mm = {x: v for x, v in mm.items() if v is not None}
                M.append(list(mm.items()))
            inside = [edges[a][0] + (edges[a][1] - edges[a][0]) / dt(2) for a in range(nd)]
            outer = [x for x in [[p for p, v in M[a] if v and np.isfinite(p)] for a in range(nd)]]
            # every position on every axis, the others inside; and with another axis outside
            for a in range(nd):
                for x, v in M[a]:
                    rep.states += 1
                    obs = [np.array([inside[b]], dtype=dt) for b in range(nd)]
                    obs[a] = np.array([x], dtype=dt)
                    exp = [False] * nd
                    exp[a] = v
                    what = f"{'regular' if reg else 'rectilinear'} {m} {np.dtype(dt)} {nd}-D atol {atol} axis {a} at {x!r} (grid from {edges[a][0]!r} to {edges[a][-1]!r})"
                    judge(rep, "class " + what, class_call(C, obs, atol), exp)
                    for init in (False, True) if m == "linear" else (False,):
                        o = raw_bounds(reg, grids, obs, float(atol), np.full(nd, init, dtype=bool), dt)
                        judge(rep, f"raw (flags initially {init}) " + what, o, exp)
                    if nd > 1 and m == "linear":
                        b = (a + 1) % nd
                        obs2 = list(obs)
                        obs2[b] = np.array([outer[b][0]], dtype=dt)
                        exp2 = list(exp)
                        exp2[b] = True
                        judge(rep, f"class, axis {b} outside too, " + what, class_call(C, obs2, atol), exp2)
                    rep.traces += 1
            # an offending point at every place of a list of points, on every axis
            for npt in (0, 1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65) if m == "linear" or thorough else (0, 3, 9):
                base = [np.full(npt, inside[b], dtype=dt) for b in range(nd)]
                judge(rep, f"class {m} {nd}-D {npt} points inside, atol {atol}", class_call(C, base, atol), [False] * nd)
                for a in range(nd):
                    for i in range(npt):
                        for x in (outer[a][0], outer[a][-1]):
                            obs = [o.copy() for o in base]
                            obs[a][i] = x
                            exp = [b == a for b in range(nd)]
                            judge(rep, f"class {m} {np.dtype(dt)} {nd}-D atol {atol}: point {i} of {npt} at {x!r} on axis {a}", class_call(C, obs, atol), exp)
                            rep.states += 1
            # observations of other shapes (the class flattens them)
            for sh in ((2, 3), (3, 1), (1, 2, 2)):
                n = int(np.prod(sh))
                for i in range(n):
                    for a in range(nd):
                        obs = [np.full(sh, inside[b], dtype=dt) for b in range(nd)]
                        obs[a].flat[i] = outer[a][-1]
                        judge(rep, f"class {m} {np.dtype(dt)} {nd}-D atol {atol}: place {i} of shape {sh} on axis {a}", class_call(C, obs, atol), [b == a for b in range(nd)])
                        obs = [c19.layout(o, "reversed") for o in obs]
                        judge(rep, f"class {m} {np.dtype(dt)} {nd}-D atol {atol}: place {i} of reversed shape {sh} on axis {a}", class_call(C, obs, atol), [b == a for b in range(nd)])
        rep.sample(f"class and raw {m} {np.dtype(dt)} {nd}-D {sp}: 6 tolerances, {sum(len(x) for x in M)} positions for the last")
    return run

def helper_case(m, reg, dt, nd, sp, thorough):
    """The helper raises exactly when asked to and something is outside; a given output is then left as it was."""
    def run(rep):
        mn = min_n(m)
        ln = [mn + (a * 2 + 1) % 3 if nd <= 3 else mn for a in range(nd)]
        grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
        vals = dense(int(np.prod(ln)), 1, dt)
        inside = [g[0] + (g[1] - g[0]) / dt(2) for g in grids]
        def call(obs, kw, exp_raise, what):
            rep.states += 1
            rep.transitions += 1
            for given in (False, True):
                out = np.full(obs[0].shape, 5.5, dtype=dt) if given else None
                k = dict(kw)
                if given:
                    k["out"] = out
                try:
                    with np.errstate(all="ignore"):
                        r = helper(m, grids, vals, obs, **k)
                    raised = False
                except Exception as e:
                    if "nrepresentable" in str(e) and exp_raise is False:
                        continue  # infinitely far away with the check off: C17
                    raised = True
                if raised != exp_raise:
                    rep.violation(f"{what}: {'raised' if raised else 'did not raise'}")
                elif raised and given and not np.all(out == dt(5.5)):
                    rep.violation(f"{what}: raised, but wrote into the output: {out.ravel().tolist()[:8]}")
                elif not raised and given and (r is not out):
                    rep.violation(f"{what}: returned another array")
                elif not raised and np.any(np.asarray(r) == dt(5.5)):
                    rep.violation(f"{what}: did not write its results")
                rep.outcome((m, reg, nd, exp_raise))
        for hint in ((False, True) if reg else (False,)):
            h = {"assume_regular": True} if hint else {}
            for atol in (None, 0.0, 1e-8, 1e-3, 0.125, 2.0):
                kw = dict(h, check_bounds=True)
                if atol is not None:
                    kw["bounds_atol"] = atol
                for a in range(nd):
                    mm = margins(grids[a], 1e-8 if atol is None else atol, dt)
                    if sp not in "dD":
                        mm = {x: v for x, v in mm.items() if np.isinf(x) or min(abs(float(x) - float(grids[a][-1]) - (atol or 1e-8 if atol is None else atol)), abs(float(x) - float(grids[a][-1]))) > 256 * np.finfo(dt).eps * float(np.max(np.abs(grids[a])))}
                    for x, v in mm.items():
                        if v is None:
                            continue
                        obs = [np.full(3, inside[b], dtype=dt) for b in range(nd)]
                        obs[a][1] = x
                        what = f"helper {m} {np.dtype(dt)} {nd}-D {sp} hint {hint} atol {atol} axis {a} at {x!r} (grid {grids[a][0]!r} to {grids[a][-1]!r})"
                        if np.isfinite(x) or v:
                            call(obs, kw, bool(v), what)
                        if np.isfinite(x) and abs(float(x)) < 1e6:
                            call(obs, dict(h), False, what + ", check off")
                            call(obs, dict(h, check_bounds=False, bounds_atol=0.0), False, what + ", check explicitly off")
            # everything inside; one bad place in shaped observations
            kw = dict(h, check_bounds=True)
            for sh in ((), (1,), (0,), (4,), (2, 3), (3, 1), (2, 2, 2)):
                n = int(np.prod(sh))
                obs = [np.full(sh, inside[b], dtype=dt) for b in range(nd)]
                call(obs, kw, False, f"helper {m} {nd}-D {sp} observations {sh} all inside")
                for a in range(nd):
                    for i in range(n):
                        for s, x in ((0, grids[a][0] - (grids[a][1] - grids[a][0])), (1, grids[a][-1] + (grids[a][1] - grids[a][0]))):
                            o2 = [o.copy() for o in obs]
                            o2[a].flat[i] = x
                            call(o2, kw, True, f"helper {m} {np.dtype(dt)} {nd}-D {sp} observations {sh}, place {i} of axis {a} outside on side {s}")
        rep.traces += 1
        rep.sample(f"helper {m} {np.dtype(dt)} {nd}-D {sp}")
    return run

def cases(thorough):
    for m in METHODS:
        if m == "cubicQ" and not thorough:
            continue
        for dn, dt in F.items():
            for nd in range(1, max_nd(m) + 1):
                if kind(m) == "cubic" and nd > 6 and not thorough:
                    continue
                for reg in (True, False):
                    for sp in ("d", "g") if reg else ("D", "G", "d"):
                        yield f"flags/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}{sp}", flags_case(m, reg, dt, nd, sp, thorough)
                for sp in "dDgG":
                    if kind(m) == "cubic" and nd > 4 and sp in "gG" and not thorough:
                        continue
                    yield f"helper/{m}/{dn}/{nd}{sp}", helper_case(m, sp in "d", dt, nd, sp, thorough)
