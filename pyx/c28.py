"""C28: calls made from several Python threads give what each gives alone. A tracing scheduler runs two real
threads one at a time and enumerates every place (bytecode or line of the package) at which one may be
interrupted by the other."""
import os, sys, threading, copy
import numpy as np
import interpn.serialization
from common import *

PKG = os.path.dirname(os.path.abspath(pkg.__file__)) + os.sep

class Traced:
    """Runs fn with `at(k)` called before the k-th event (bytecode or line) inside the package."""
    def __init__(self, opcodes, at):
        self.n, self.at, self.op = 0, at, opcodes
    def tr(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if event == "call":
            if self.op:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.tr
        if event == ("opcode" if self.op else "line"):
            k = self.n
            self.n += 1
            self.at(k)
        return self.tr
    def run(self, fn):
        sys.settrace(self.tr)
        try:
            return outcome(fn)
        finally:
            sys.settrace(None)

def outcome(fn):
    try:
        r = fn()
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:60])
    return ("ok", r)
def freeze(o):
    """What is compared: kind, type, shape and bits."""
    if o[0] == "error":
        return o
    return ("ok",) + tuple((str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes()) for a in (o[1] if isinstance(o[1], tuple) else (o[1],)))
def show(o):
    return str(o) if o[0] == "error" else str([np.asarray(a).ravel()[:6].tolist() for a in (o[1] if isinstance(o[1], tuple) else (o[1],))])

def in_thread(fn):
    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    return box[0]

NAMES = ["lin", "rect", "cub", "near", "shaped", "out", "strided", "bounds", "outside", "badobs", "class", "classout", "new", "json", "cbounds", "shared"]

class World:
    """One caller's data. Two callers' data differ in every number; `same` shapes, or other shapes."""
    def __init__(self, who, dt, shapes, sharedobj):
        n, pts = [(5, 6), (5, 6), (7, 9)][who + (1 if shapes == "other" and who else 0)]
        self.dt, self.who, self.pts = dt, who, pts
        self.greg = [axis("d", n, who * 2 + a, dt) for a in (0, 1)]
        self.grect = [axis("D", n, who * 2 + a, dt) for a in (0, 1)]
        self.v = dense(n * n, 11 + who, dt)
        k = np.arange(pts)
        self.obs = lambda g: [(x[0] + (x[-1] - x[0]) * ((k * (3 + a) + who) % (pts + 1)) / pts).astype(dt) for a, x in enumerate(g)]
        self.objs = {(m, reg): make(m, reg, self.greg if reg else self.grect, self.v) for m in ("linear", "cubicL", "nearest") for reg in (True, False)}
        self.json = self.objs[("cubicL", False)].model_dump_json()
        self.shared = sharedobj
    def op(self, name):
        """A function making one call on fresh copies of this caller's arguments."""
        dt, o = self.dt, self.obs
        R, G = self.greg, self.grect
        A = lambda g: [x.copy() for x in o(g)]
        far = lambda g: [o(g)[0], (o(g)[1] + dt(1e4)).astype(dt)]
        if name == "lin":
            return lambda: helper("linear", R, self.v, A(R))
        if name == "rect":
            return lambda: helper("linear", G, self.v, A(G))
        if name == "cub":
            return lambda: helper("cubicQ", G, self.v, A(G))
        if name == "near":
            return lambda: helper("nearest", R, self.v, A(R), assume_regular=True)
        if name == "shaped":
            return lambda: helper("cubicL", R, self.v.reshape(len(R[0]), -1), [np.asfortranarray(x.reshape(-1, 3)) for x in A(R)])
        if name == "out":
            def f():
                out = np.full(self.pts, -7, dtype=dt)
                r = helper("linear", G, self.v, A(G), out=out)
                return out, r
            return f
        if name == "strided":
            def f():
                buf = np.full(self.pts * 2, -7, dtype=dt)
                r = helper("linear", R, self.v, A(R), out=buf[::2])
                return buf, r
            return f
        if name == "bounds":
            return lambda: helper("linear", R, self.v, A(R), check_bounds=True)
        if name == "outside":
            def f():
                out = np.full(self.pts, -7, dtype=dt)
                try:
                    r = helper("nearest", G, self.v, far(G), check_bounds=True, out=out)
                except ValueError:
                    return (out, np.zeros(1))
                return out, r
            return f
        if name == "badobs":
            return lambda: helper("linear", R, self.v, [o(R)[0], o(R)[1][:-1]])
        if name == "class":
            return lambda: tuple(c.eval(A(R if reg else G)) for (m, reg), c in self.objs.items())
        if name == "classout":
            def f():
                r = []
                for (m, reg), c in self.objs.items():
                    out = np.full(self.pts, -7, dtype=dt)
                    c.eval(A(R if reg else G), out)
                    r.append(out)
                return tuple(r)
            return f
        if name == "new":
            return lambda: tuple(make(m, reg, [g.copy() for g in (R if reg else G)], self.v.copy()).eval(A(R if reg else G)) for m, reg in (("linear", True), ("cubicQ", False)))
        if name == "json":
            def f():
                c = pkg.MulticubicRectilinear.model_validate_json(self.json)
                return c.eval(A(G)), np.frombuffer(c.model_dump_json().encode(), dtype=np.uint8)
            return f
        if name == "cbounds":
            return lambda: tuple(c.check_bounds(far(R if reg else G), 1e-6) for (m, reg), c in self.objs.items())
        if name == "shared":
            return lambda: tuple(c.eval(A(G)) for c in self.shared)
        raise KeyError(name)

def worlds(dt, dt2, shapes):
    g = [axis("D", 6, 5, dt), axis("G", 4, 6, dt)]
    sh = [make(m, False, g, dense(24, 3, dt)) for m in ("linear", "cubicL", "nearest")]
    return World(0, dt, shapes, sh), World(1, dt2, shapes, sh)

def judge(rep, what, got, alone):
    rep.transitions += 1
    rep.evals += 1
    if freeze(got) != freeze(alone):
        rep.violation(f"{what}: {show(got)} instead of {show(alone)}")
        return False
    return True

def disjoint(rep, what, a, b):
    """Arrays handed to different callers never share memory."""
    for x in (a[1] if isinstance(a[1], tuple) else (a[1],)) if a[0] == "ok" else ():
        for y in (b[1] if isinstance(b[1], tuple) else (b[1],)) if b[0] == "ok" else ():
            if np.shares_memory(x, y):
                rep.violation(f"{what}: the two callers were given the same memory")
                return

def one_case(na, dt, dt2, shapes, opcodes):
    def run(rep):
        wa, wb = worlds(dt, dt2, shapes)
        for nb in NAMES:
            fa, fb = wa.op(na), wb.op(nb)
            alone_a, alone_b = outcome(fa), outcome(fb)
            c = Traced(opcodes, lambda k: None)
            judge(rep, f"{na} traced", c.run(fa), alone_a)
            total = c.n
            k = 0
            while k <= total:
                box = []
                def at(i, k=k):
                    if i == k:
                        sys.settrace(None)
                        box.append(in_thread(lambda: outcome(fb)))
                t = Traced(opcodes, at)
                ra = t.run(fa)
                if not box:
                    box.append(outcome(fb))  # k == total: one after the other
                w = f"{na} interrupted at {'bytecode' if opcodes else 'line'} {k} of {total} by a whole {nb}"
                rep.states += 1
                ok = judge(rep, w + ": first caller", ra, alone_a) & judge(rep, w + ": second caller", box[0], alone_b)
                disjoint(rep, w, ra, box[0])
                if not ok:
                    break
                k += 1
            rep.traces += total + 1
            rep.outcome((na, nb, total))
        rep.sample(f"{na} against {len(NAMES)} other calls, {total + 1} places each")
    return run

def two_case(na, dt, dt2, shapes, step):
    """Both calls interrupted once: the first stops at its line k, the second at its line j, then the first
    finishes, then the second."""
    def run(rep):
        wa, wb = worlds(dt, dt2, shapes)
        for nb in NAMES:
            fa, fb = wa.op(na), wb.op(nb)
            alone_a, alone_b = outcome(fa), outcome(fb)
            ca, cb = Traced(False, lambda k: None), Traced(False, lambda k: None)
            ca.run(fa), cb.run(fb)
            bad = False
            for k in range(0, ca.n, step):
                for j in range(0, cb.n, step):
                    stop, go = threading.Event(), threading.Event()
                    box = []
                    def at_b(i):
                        if i == j:
                            stop.set()
                            go.wait(20)
                    def second():
                        box.append(Traced(False, at_b).run(fb))
                        stop.set()
                    th = threading.Thread(target=second)
                    def at_a(i):
                        if i == k:
                            th.start()
                            stop.wait(20)
                    ra = Traced(False, at_a).run(fa)
                    go.set()
                    if th.ident is None:
                        # the call took fewer steps this time than alone: run the second one after it
                        box.append(outcome(fb))
                    else:
                        th.join(30)
                    if not box:
                        rep.violation(f"{na} stopped at line {k}, {nb} at line {j}: the second call did not finish")
                        return
                    rep.states += 1
                    w = f"{na} stopped at line {k}, {nb} at line {j}"
                    bad = not (judge(rep, w + ": first caller", ra, alone_a) & judge(rep, w + ": second caller", box[0], alone_b))
                    disjoint(rep, w, ra, box[0])
                    if bad:
                        break
                if bad:
                    break
            rep.traces += 1
    return run

def cases(thorough):
    f4, f8 = F["f4"], F["f8"]
    for na in NAMES:
        for t, (d1, d2) in {"f8f8": (f8, f8), "f4f8": (f4, f8), "f4f4": (f4, f4)}.items():
            for sh in ("same", "other"):
                if not thorough and (t, sh) not in (("f8f8", "same"), ("f4f8", "other"), ("f4f4", "same")):
                    continue
                if not thorough and t == "f4f4" and na not in ("lin", "shaped", "out", "class"):
                    continue
                yield f"one/{na}/{t}/{sh}", one_case(na, d1, d2, sh, True)
        if na in ("class", "classout", "cbounds", "new", "json") and not thorough:
            yield f"two/{na}/f8f8/same", two_case(na, f8, f8, "same", 5)
        else:
            yield f"two/{na}/f8f8/same", two_case(na, f8, f8, "same", 1 if thorough else 2)
