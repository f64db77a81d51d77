"""C22: interpolators are snapshots, calls are independent, output arrays are handled as documented."""
import itertools, json
import numpy as np
import interpn as pkg
from common import *
import c19

def debruijn(k, n):
    """A cyclic-free history holding every sequence of n operations out of k."""
    a, seq = [0] * (k * n), []
    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    import sys
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq + seq[: n - 1]

def biteq(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()

class World:
    """The caller's arrays, the objects built from them, and everything handed out so far."""
    def __init__(self, rep, m, reg, dt, nd):
        self.rep, self.m, self.reg, self.dt, self.nd = rep, m, reg, dt, nd
        mn = min_n(m)
        self.ln = [mn + (a + 1) % 2 for a in range(nd)]
        n = int(np.prod(self.ln))
        sp = "d" if reg else "D"
        self.gv = [[axis(sp, self.ln[a], a, dt) for a in range(nd)], [axis(sp, self.ln[a], a + 3, dt) for a in range(nd)]]
        self.vv = [dense(n, 1, dt), dense(n, 2, dt)]
        self.o2 = np.float32 if dt is np.float64 else np.float64
        self.pts = {}
        for k, npt in (("P", 6), ("Q", 9)):
            pos = [positions(g, "core") for g in self.gv[0]]
            self.pts[k] = [pos[a][(np.arange(npt) * (a + 1 + (k == "Q")) + a) % len(pos[a])].copy() for a in range(nd)]
        # what every evaluation must give, from objects that nothing else touches
        self.exp = {}
        for gi, vi, k in itertools.product((0, 1), (0, 1), "PQ"):
            c = self.build([g.copy() for g in self.gv[gi]], self.vv[vi].copy())
            e = c.eval([o.copy() for o in self.pts[k]])
            pos = [np.unique(o) for o in self.pts[k]]
            idx = np.ravel_multi_index([np.searchsorted(p, o) for p, o in zip(pos, self.pts[k])], [len(p) for p in pos])
            bad, _ = Ref(m, self.gv[gi], self.vv[vi], pos).compare(e, idx)
            if bad:
                rep.violation(f"first evaluation: {bad}")
            self.exp[gi, vi, k] = e.copy()
        self.exp2 = {k: self.build([g.astype(self.o2) for g in self.gv[1]], self.vv[1].astype(self.o2)).eval([o.astype(self.o2) for o in self.pts[k]]).copy() for k in "PQ"}
        self.pts2 = {k: [o.astype(self.o2) for o in v] for k, v in self.pts.items()}
        # the live part
        self.g = [g.copy() for g in self.gv[0]]
        self.v = self.vv[0].copy()
        self.dims = list(self.ln)
        self.glist = list(self.g)
        self.st, self.sp = np.array([g[0] for g in self.g], dtype=dt), np.array([g[1] - g[0] for g in self.g], dtype=dt)
        self.gi = self.vi = 0
        self.A = self.live()
        self.A0 = (0, 0)
        self.B = self.build([g.astype(self.o2) for g in self.gv[1]], self.vv[1].astype(self.o2))
        self.js = self.A.model_dump_json()
        self.kept = []  # (array, snapshot, what)
        self.hist = []
        self.buf = {k: np.full(len(v[0]), np.nan, dtype=dt) for k, v in self.pts.items()}
        self.n = 0
    def kw(self):
        return {"linearize_extrapolation": self.m == "cubicL"} if kind(self.m) == "cubic" else {}
    def build(self, grids, vals):
        C = CLASSES[(kind(self.m), self.reg)]
        if self.reg:
            d, s, h = params(grids, vals.dtype.type)
            return C.new(d, s, h, vals, **self.kw())
        return C.new(list(grids), vals, **self.kw())
    def live(self):
        C = CLASSES[(kind(self.m), self.reg)]
        if self.reg:
            return C.new(self.dims, self.st, self.sp, self.v, **self.kw())
        return C.new(self.glist, self.v, **self.kw())
    def bad(self, what):
        self.rep.violation(f"{self.m} {'regular' if self.reg else 'rectilinear'} {np.dtype(self.dt)} {self.nd}-D after {self.hist[-5:]}: {what}")
    def got(self, r, exp, what, fresh=True):
        self.rep.evals += r.size
        if not biteq(r, exp):
            self.bad(f"{what}: {r.tolist()} instead of {exp.tolist()}")
            return
        if fresh:
            for a, _, w in self.kept:
                if np.shares_memory(a, r):
                    self.bad(f"{what}: returned memory already handed out by {w}")
                    return
            for a in [self.v, self.st, self.sp] + self.g + self.pts["P"] + self.pts["Q"]:
                if np.shares_memory(a, r):
                    self.bad(f"{what}: returned the caller's own input memory")
                    return
            self.kept.append((r, r.copy(), what))
            if len(self.kept) > 6:
                self.kept.pop(0)
    def setgrid(self, gi):
        self.gi = gi
        for g, s in zip(self.g, self.gv[gi]):
            g[...] = s
        self.st[...] = [g[0] for g in self.g]
        self.sp[...] = [g[1] - g[0] for g in self.g]
    # ---- operations
    def op_eval_P(self):
        self.got(self.A.eval(self.pts["P"]), self.exp[(*self.A0, "P")], "eval")
    def op_eval_Q(self):
        self.got(self.A.eval_unchecked(self.pts["Q"]), self.exp[(*self.A0, "Q")], "eval_unchecked")
    def op_eval_out(self):
        b = self.buf["P"]
        b[...] = np.nan
        r = self.A.eval(self.pts["P"], b)
        if r is not b:
            self.bad("eval with an output array returned another array")
        self.got(b, self.exp[(*self.A0, "P")], "eval into out", fresh=False)
    def op_unchecked_out(self):
        b = self.buf["Q"]
        b[...] = np.nan
        r = self.A.eval_unchecked(self.pts["Q"], b)
        if r is not b:
            self.bad("eval_unchecked with an output array returned another array")
        self.got(b, self.exp[(*self.A0, "Q")], "eval_unchecked into out", fresh=False)
    def op_other(self):
        self.got(self.B.eval(self.pts2["P"]), self.exp2["P"], "eval of the other object")
    def op_mut_vals(self):
        self.vi ^= 1
        self.v[...] = self.vv[self.vi]
    def op_mut_grid(self):
        self.setgrid(self.gi ^ 1)
    def op_mut_lists(self):
        # the caller reuses its lists for something else, and puts them back later
        if self.reg:
            self.dims[0] += 1
            self.dims.append(7)
        else:
            self.glist.append(self.g[0])
            self.glist[0] = self.g[0][::-1].copy()
        if not self.A_same():
            self.bad("the object changed when the caller's list did")
        self.dims[:] = self.ln
        self.glist[:] = self.g
    def A_same(self):
        return self.A.model_dump_json() == self.js
    def op_rebuild(self):
        self.A = self.live()
        self.A0 = (self.gi, self.vi)
        self.js = self.A.model_dump_json()
    def op_fail_out(self):
        self.raises(lambda: self.A.eval(self.pts["P"], np.zeros(len(self.pts["P"][0]) + 1, dtype=self.dt)), "an output of the wrong length")
    def op_fail_obs(self):
        self.raises(lambda: self.A.eval(self.pts["P"] + [self.pts["P"][0]]), "too many observation arrays")
        self.raises(lambda: self.A.eval(self.pts2["P"]), "observations of the other type")
    def op_fail_len(self):
        if self.nd > 1:
            self.raises(lambda: self.A.eval([self.pts["P"][0]] + [o[:-1].copy() for o in self.pts["P"][1:]]), "observation arrays of different lengths")
        else:
            self.raises(lambda: self.A.eval([self.pts["P"][0]], np.zeros(2, dtype=self.dt)), "an output of the wrong length")
    def raises(self, f, what):
        try:
            f()
        except Exception:
            return
        self.bad(f"{what} was accepted")
    def op_json(self):
        if not self.A_same():
            self.bad("serialized differently from before")
    def op_restore(self):
        C = type(self.A)
        self.A = C.model_validate_json(self.js)
        if not self.A_same():
            self.bad("a restored object serializes differently")
    def op_bounds(self):
        self.A.check_bounds(self.pts["P"], 1e-8)
        self.B.check_bounds(self.pts2["Q"], 1e-8)
    def op_helper(self):
        self.got(helper(self.m, self.g, self.v, self.pts["P"], assume_regular=self.reg), self.exp[self.gi, self.vi, "P"], "helper")
    def op_helper_out(self):
        b = self.buf["Q"]
        b[...] = np.nan
        r = helper(self.m, self.g, self.v, self.pts["Q"], out=b, assume_regular=self.reg)
        if r is not b:
            self.bad("the helper with an output array returned another array")
        self.got(b, self.exp[self.gi, self.vi, "Q"], "helper into out", fresh=False)
    def op_helper_fail(self):
        self.raises(lambda: helper(self.m, self.g, self.v[:-1].copy(), self.pts["P"]), "a value array of the wrong size")
    def op_scribble(self):
        # the caller writes over a result it was given: it owns it
        if self.kept:
            a, _, _ = self.kept.pop()
            a[...] = -77
    def op_mut_obs(self):
        P = self.pts["P"]
        for o in P:
            o[...] = o[::-1].copy()
        for k in list(self.exp):
            if k[2] == "P":
                self.exp[k] = self.exp[k][::-1].copy()
    def step(self, name):
        self.hist = (self.hist + [name])[-8:]
        self.n += 1
        ins = [a for a in [self.v, self.st, self.sp] + self.g + self.pts["P"] + self.pts["Q"] + self.pts2["P"] + self.pts2["Q"]]
        mut = name in ("mut_vals", "mut_grid", "mut_obs")
        before = None if mut else [a.tobytes() for a in ins]
        getattr(self, "op_" + name)()
        self.rep.transitions += 1
        if not mut and [a.tobytes() for a in ins] != before:
            self.bad(f"{name} changed its inputs")
        for a, s, w in self.kept:
            if a.tobytes() != s.tobytes():
                self.bad(f"a result returned earlier by {w} was overwritten")
                self.kept.clear()
                break

OPS = [n[3:] for n in dir(World) if n.startswith("op_")]
CORE = ["eval_P", "eval_out", "other", "mut_vals", "mut_grid", "rebuild", "fail_obs", "restore", "helper", "scribble"]

def history_case(m, reg, dt, nd, ops, depth):
    def run(rep):
        w = World(rep, m, reg, dt, nd)
        for i in debruijn(len(ops), depth):
            w.step(ops[i])
            rep.states += 1
            if rep.nviol > 20:
                return
        rep.traces += len(ops) ** depth
        rep.sample(f"{m} {'regular' if reg else 'rectilinear'} {np.dtype(dt)} {nd}-D: every sequence of {depth} of {ops}")
    return run

# ---- output arrays
def out_layouts(sh, dt):
    """(name, output array, its buffer or None)"""
    o = [("C", np.full(sh, np.nan, dtype=dt), None), ("F", np.full(sh, np.nan, dtype=dt, order="F"), None)]
    if len(sh):
        b = np.full(tuple(2 * s + 1 for s in sh), 5.5, dtype=dt)
        o.append(("strided", b[tuple(slice(1, 2 * s + 1, 2) for s in sh)], b))
        b = np.full(tuple(s + 2 for s in sh), 5.5, dtype=dt)
        o.append(("window", b[tuple(slice(1, s + 1) for s in sh)], b))
        b = np.full(sh, 5.5, dtype=dt)
        o.append(("reversed", b[tuple(slice(None, None, -1) for _ in sh)], b))
        b = np.full(sh[:-1] + (3 * sh[-1] + 1,), 5.5, dtype=dt)
        o.append(("last axis strided", b[..., : 3 * sh[-1]: 3] if sh[-1] else b[..., :0], b))
        b = np.full((2 * sh[0] + 1,) + sh[1:], 5.5, dtype=dt)
        o.append(("first axis strided", b[1: 2 * sh[0] + 1: 2], b))
    n = int(np.prod(sh))
    b = np.full(n + 5, 5.5, dtype=dt)
    o.append(("offset", b[3: 3 + n].reshape(sh), b))
    return o

def out_case(m, reg, dt, nd):
    def run(rep):
        mn = min_n(m)
        ln = [mn + (a + 1) % 3 for a in range(nd)]
        sp = ("d" if reg else "D") * nd
        grids = [axis(sp[a], ln[a], a, dt) for a in range(nd)]
        vals = dense(int(np.prod(ln)), 4, dt)
        C = make(m, reg, grids, vals)
        for sh in c19.shapes():
            n = int(np.prod(sh))
            pos, cols, idx = c19.pick_points(grids, n, 2)
            ref = Ref(m, grids, vals, pos)
            for ol in ("C", "F", "strided", "reversed"):
                obs = [c19.layout(c.reshape(sh), ol) for c in cols]
                plain = np.array(helper(m, grids, vals, obs), order="C").ravel()
                e, _ = ref.compare(plain, idx)
                if e:
                    rep.violation(f"{m} {np.dtype(dt)} {nd}-D observations {sh} {ol}: {e}")
                for kw in ({}, {"assume_regular": True}, {"check_bounds": True, "bounds_atol": 1e6}) if reg else ({}, {"check_bounds": True, "bounds_atol": 1e6}):
                    for name, out, buf in out_layouts(sh, dt):
                        out[...] = np.nan
                        mask = None
                        if buf is not None:
                            mask = ~np.isnan(buf)
                        r = helper(m, grids, vals, obs, out=out, **kw)
                        rep.states += 1
                        rep.transitions += 1
                        rep.evals += n
                        what = f"helper {m} {np.dtype(dt)} {nd}-D observations {sh} {ol}, output {name} {kw}"
                        if r is not out:
                            rep.violation(f"{what}: returned another array than the given output")
                        elif np.array(out, order="C").tobytes() != plain.tobytes():
                            rep.violation(f"{what}: wrote {np.array(out).ravel().tolist()[:9]}, expected {plain.tolist()[:9]}")
                        elif mask is not None and not np.all(buf[mask] == dt(5.5)):
                            rep.violation(f"{what}: wrote outside the given output")
                        else:
                            # and once more into the same output, already full
                            helper(m, grids, vals, obs, out=out, **kw)
                            if np.array(out, order="C").tobytes() != plain.tobytes():
                                rep.violation(f"{what}: a second call left {np.array(out).ravel().tolist()[:9]}, expected {plain.tolist()[:9]}")
                        rep.outcome((m, sh, ol, name))
                        rep.traces += 1
        # classes: a window of a larger array, every length
        for n in list(range(0, 40)) + [64, 65, 257, 1025]:
            pos, cols, idx = c19.pick_points(grids, n, 3)
            exp = C.eval(cols)
            for f in ("eval", "eval_unchecked"):
                for off in (0, 1, 3):
                    b = np.full(n + 6, 5.5, dtype=dt)
                    o = b[off: off + n]
                    r = getattr(C, f)(cols, o)
                    rep.states += 1
                    rep.transitions += 1
                    if r is not o or o.tobytes() != exp.tobytes() or not (np.all(b[:off] == 5.5) and np.all(b[off + n:] == 5.5)):
                        rep.violation(f"{f} {m} {np.dtype(dt)} {nd}-D with {n} points into a window at {off}: {b.tolist()[:12]}, expected {exp.tolist()[:12]}")
    return run

SIZES = [2, 4, 5, 15, 16, 17, 31, 33, 63, 65, 99, 101, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4095, 4097, 8193, 10001, 16385, 32769, 65535, 65537, 100003]
def size_case(m, reg, dt, n):
    """Snapshots, returned arrays and outputs for tables and observation lists of this size."""
    def run(rep):
        name = f"{'regular' if reg else 'rectilinear'} {m} {np.dtype(dt)}"
        for nd in (1, 2):
            ln = [n] if nd == 1 else [min_n(m), n]
            grids = [axis("d" if reg else "D", k, a, dt) for a, k in enumerate(ln)]
            vals = dense(int(np.prod(ln)), 5, dt)
            g0, v0 = [g.copy() for g in grids], vals.copy()
            starts, steps = params(grids, dt)[1:]
            C = CLASSES[(kind(m), reg)]
            kw = {"linearize_extrapolation": m == "cubicL"} if kind(m) == "cubic" else {}
            lens = list(ln)
            c = C.new(lens, starts, steps, vals, **kw) if reg else C.new(grids, vals, **kw)
            _, obs, _ = c19.pick_points(g0, n, 1)
            if n > 64:
                obs = [np.ascontiguousarray(np.concatenate([o, g[[n // 3, n // 2, 2 * n // 3]]] if len(g) == n else [o, o[:3]])) for o, g in zip(obs, g0)]
            o0 = [o.copy() for o in obs]
            exp = c.eval(obs)
            first = exp.copy()
            hr = helper(m, g0, v0, obs, assume_regular=reg)
            h1 = hr.copy()
            def still(what):
                rep.states += 1
                rep.transitions += 1
                r = c.eval([o.copy() for o in o0])
                if r.tobytes() != first.tobytes() or exp.tobytes() != first.tobytes() or hr.tobytes() != h1.tobytes():
                    rep.violation(f"{name}, {ln} nodes, {len(obs[0])} points: {what} changed " + ("later results" if r.tobytes() != first.tobytes() else "an array returned earlier"))
                    return False
                return True
            ok = still("nothing")
            for x, what in [(vals, "overwriting the caller's values")] + [(g, "overwriting the caller's grid") for g in grids] + [(starts, "overwriting the caller's starts"), (steps, "overwriting the caller's steps")]:
                x[...] = 77.0
                ok = ok and still(what)
            grids.clear()
            lens[:] = [1] * nd
            ok = ok and still("changing the caller's lists")
            other = [o[::-1].copy() for o in o0]
            r2 = c.eval(other)
            ok = ok and still("another evaluation")
            h2 = helper(m, g0, v0, other, assume_regular=reg)
            ok = ok and still("another call of the helper")
            for o in obs:
                o[...] = 55.0
            ok = ok and still("overwriting the caller's observations")
            for a, b in itertools.combinations([exp, hr, r2, h2, *g0, v0, *other], 2):
                if np.shares_memory(a, b):
                    rep.violation(f"{name}, {ln} nodes, {len(o0[0])} points: returned or given arrays share memory")
            for x, what in ((exp, "overwriting a returned array"), (hr, "overwriting an array returned by the helper"), (r2, "overwriting another returned array")):
                x[...] = 33.0
                rep.states += 1
                if c.eval(o0).tobytes() != first.tobytes() or helper(m, g0, v0, o0, assume_regular=reg).tobytes() != h1.tobytes():
                    rep.violation(f"{name}, {ln} nodes, {len(o0[0])} points: {what} changed later results")
            out = np.full(len(o0[0]), np.nan, dtype=dt)
            for k in range(2):
                if c.eval(o0, out) is not out or out.tobytes() != first.tobytes():
                    rep.violation(f"{name}, {ln} nodes, {len(o0[0])} points: given output (call {k}) not filled")
                if helper(m, g0, v0, o0, assume_regular=reg, out=out) is not out or out.tobytes() != h1.tobytes():
                    rep.violation(f"{name}, {ln} nodes, {len(o0[0])} points: output given to the helper (call {k}) not filled")
            rep.traces += 1
    return run

def cases(thorough):
    for m in METHODS:
        for reg in (True, False):
            for dn, dt in F.items():
                for n in SIZES:
                    if n >= min_n(m) and (m != "cubicQ" or thorough):
                        yield f"size/{m}/{'reg' if reg else 'rect'}/{dn}/{n}", size_case(m, reg, dt, n)
    for m in METHODS:
        for reg in (True, False):
            for dn, dt in F.items():
                for nd in range(4, max_nd(m) + 1 if kind(m) != "cubic" else 6):
                    yield f"history2/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", history_case(m, reg, dt, nd, OPS, 2)
                for nd in (1, 2, 3):
                    yield f"history2/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", history_case(m, reg, dt, nd, OPS, 2)
                    yield f"history-core/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", history_case(m, reg, dt, nd, CORE, 4 + (1 if thorough else 0))
                    yield f"history3/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", history_case(m, reg, dt, nd, OPS, 3)
                    yield f"out/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", out_case(m, reg, dt, nd)
