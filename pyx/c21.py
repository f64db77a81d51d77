"""C21: bad arguments raise an ordinary Exception (never a panic or an abort), good ones are accepted, inputs stay as they were."""
import itertools
import numpy as np
import interpn as pkg
from interpn import raw
from interpn.serialization import ArrayF32, ArrayF64
from common import *

OTHER = {np.float32: np.float64, np.float64: np.float32}

def base_args(m, reg, dt, nd, npts=5):
    mn = min_n(m)
    ln = [mn + (a * 2 + 1) % 3 if nd <= 3 else mn + (1 if a == nd // 2 else 0) for a in range(nd)]
    sp = "d" if reg else "D"
    grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
    pos = [positions(g, "core") for g in grids]
    obs = [p[(np.arange(npts) * (a + 1)) % len(p)].copy() for a, p in enumerate(pos)]
    return dict(dims=list(ln), starts=np.array([g[0] for g in grids], dtype=dt), steps=np.array([g[1] - g[0] for g in grids], dtype=dt),
                grids=grids, vals=dense(int(np.prod(ln)), nd, dt), flag=m == "cubicL", obs=obs, out=np.full(npts, np.nan, dtype=dt),
                method=kind(m), atol=1e-8, flags=np.zeros(nd, dtype=bool))

def grow(x, k):
    if k < 0:
        return x[:k].copy()
    return np.concatenate([x, np.resize(x, k) if x.size else np.zeros(k, x.dtype)]).astype(x.dtype)
def strided(x):
    b = np.zeros(2 * x.size + 1, dtype=x.dtype)
    b[1::2] = x
    return b[1::2]

def array_devs(dt):
    """(label, function) deviations of one 1-D array argument."""
    return [("shorter", lambda x: grow(x, -1)), ("longer", lambda x: grow(x, 1)), ("doubled", lambda x: np.concatenate([x, x])), ("empty", lambda x: x[:0].copy()),
            ("other float type", lambda x: x.astype(OTHER[dt])), ("int64", lambda x: x.astype(np.int64)), ("float16", lambda x: x.astype(np.float16)), ("longdouble", lambda x: x.astype(np.longdouble)),
            ("complex", lambda x: x.astype(np.complex128)), ("object", lambda x: x.astype(object)), ("bool", lambda x: x.astype(bool)), ("big-endian", lambda x: x.astype(x.dtype.newbyteorder(">"))),
            ("strided", strided), ("reversed view", lambda x: x[::-1].copy()[::-1]), ("row", lambda x: x.reshape(1, -1)), ("column", lambda x: x.reshape(-1, 1)), ("scalar", lambda x: np.array(x[0] if x.size else 0, dtype=dt)),
            ("list", lambda x: x.tolist()), ("None", lambda x: None), ("string", lambda x: "1.0"), ("read-only", lambda x: ro(x))]
def ro(x):
    y = x.copy()
    y.flags.writeable = False
    return y

def deviations(entry, m, reg, dt, nd):
    """(argument, label, function args -> new value of that argument)."""
    D = []
    mn = min_n(m)
    def arr(name):
        for l, f in array_devs(dt):
            D.append((name, l, lambda a, f=f, name=name: f(a[name])))
    def item(name, i, v, l):
        def f(a):
            x = a[name].copy() if isinstance(a[name], np.ndarray) else list(a[name])
            x[i] = v
            return x
        D.append((name, f"[{i}]={l}", f))
    helper_ = entry == "helper" or entry == "helper-regular"
    if reg and not helper_:
        D.append(("dims", "fewer", lambda a: a["dims"][:-1]))
        D.append(("dims", "more", lambda a: a["dims"] + [2]))
        D.append(("dims", "one more of 1", lambda a: a["dims"] + [1]))
        D.append(("dims", "empty", lambda a: []))
        D.append(("dims", "tuple", lambda a: tuple(a["dims"])))
        D.append(("dims", "int64 array", lambda a: np.array(a["dims"], dtype=np.int64)))
        D.append(("dims", "None", lambda a: None))
        D.append(("dims", "floats", lambda a: [float(x) + 0.5 for x in a["dims"]]))
        for i in range(nd):
            for v in (0, 1, mn - 1, mn, 2 ** 31, 2 ** 32 + 3, 2 ** 62, 2 ** 63, 2 ** 64 - 1, -1, 2 ** 64):
                item("dims", i, v, str(v))
        if nd > 1:
            D.append(("dims", "swapped", lambda a: a["dims"][::-1]))
        arr("starts")
        arr("steps")
        for i in range(nd):
            for v in (0.0, -0.0, -1.0, np.nan, np.inf, -np.inf, np.finfo(dt).smallest_subnormal):
                item("steps", i, dt(v), str(v))
            for v in (np.nan, np.inf, np.finfo(dt).max):
                item("starts", i, dt(v), str(v))
    else:
        D.append(("grids", "fewer", lambda a: a["grids"][:-1]))
        D.append(("grids", "more", lambda a: a["grids"] + [a["grids"][0].copy()]))
        D.append(("grids", "one more of length 1", lambda a: a["grids"] + [np.zeros(1, dtype=dt)]))
        D.append(("grids", "empty", lambda a: []))
        D.append(("grids", "tuple", lambda a: tuple(a["grids"])))
        D.append(("grids", "None", lambda a: None))
        D.append(("grids", "same array twice", lambda a: [a["grids"][0]] * len(a["grids"])))
        for i in range(nd):
            for l, f in array_devs(dt):
                def g(a, f=f, i=i):
                    x = list(a["grids"])
                    if i < len(x):
                        x[i] = f(x[i])
                    return x
                D.append(("grids", f"[{i}] {l}", g))
            for l, f in (("length 1", lambda x: x[:1].copy()), ("too short", lambda x: x[: mn - 1].copy()), ("decreasing", lambda x: x[::-1].copy()), ("constant", lambda x: np.full_like(x, 1.5)),
                         ("first two equal", lambda x: sub(x, 0, x[1])), ("first two swapped", lambda x: sub(sub(x, 0, x[1]), 1, x[0])), ("last two equal", lambda x: sub(x, -1, x[-2])),
                         ("last two swapped", lambda x: sub(sub(x, -1, x[-2]), -2, x[-1])), ("NaN first", lambda x: sub(x, 0, dt(np.nan))), ("NaN last", lambda x: sub(x, -1, dt(np.nan))), ("inf last", lambda x: sub(x, -1, dt(np.inf)))):
                def g(a, f=f, i=i):
                    x = list(a["grids"])
                    if i < len(x):
                        x[i] = f(x[i])
                    return x
                D.append(("grids", f"[{i}] {l}", g))
    if "bounds" not in entry or entry == "class bounds":
        arr("vals")
    D.append(("vals", "full shape", lambda a: shaped(a))) if "bounds" not in entry else None
    # observations
    D.append(("obs", "fewer", lambda a: a["obs"][:-1]))
    D.append(("obs", "more", lambda a: a["obs"] + [a["obs"][0].copy()]))
    D.append(("obs", "doubled", lambda a: a["obs"] + a["obs"]))
    D.append(("obs", "20 arrays", lambda a: [a["obs"][0].copy() for _ in range(20)]))
    D.append(("obs", "empty list", lambda a: []))
    D.append(("obs", "tuple", lambda a: tuple(a["obs"])))
    D.append(("obs", "None", lambda a: None))
    D.append(("obs", "one array", lambda a: a["obs"][0]))
    D.append(("obs", "2-D array", lambda a: np.array(a["obs"])))
    D.append(("obs", "same array for every axis", lambda a: [a["obs"][0]] * len(a["obs"])))
    D.append(("obs", "NaN points", lambda a: [np.full_like(x, np.nan) for x in a["obs"]]))
    D.append(("obs", "no points", lambda a: [x[:0].copy() for x in a["obs"]]))
    for i in range(nd):
        for l, f in array_devs(dt):
            def g(a, f=f, i=i):
                x = list(a["obs"])
                if i < len(x):
                    x[i] = f(x[i])
                return x
            D.append(("obs", f"[{i}] {l}", g))
    if entry in ("raw bounds",):
        for l, f in (("shorter", lambda x: x[:-1].copy()), ("longer", lambda x: np.zeros(len(x) + 1, dtype=bool)), ("empty", lambda x: x[:0].copy()), ("uint8", lambda x: x.astype(np.uint8)), ("float", lambda x: x.astype(float)), ("strided", lambda x: np.zeros(2 * len(x) + 1, dtype=bool)[1::2]), ("read-only", ro), ("None", lambda x: None)):
            D.append(("flags", l, lambda a, f=f: f(a["flags"])))
    if "bounds" in entry:
        for v in (None, "x", 1j, [1.0]):
            D.append(("atol", repr(v), lambda a, v=v: v))
    if "bounds" not in entry:
        for l, f in array_devs(dt):
            D.append(("out", l, lambda a, f=f: f(a["out"])))
        D.append(("out", "is the first observation array", lambda a: a["obs"][0]))
        D.append(("out", "is the last observation array", lambda a: a["obs"][-1]))
        D.append(("out", "overlaps the values", lambda a: a["vals"][: len(a["out"])]))
        D.append(("out", "full shape", lambda a: a["out"].reshape(1, -1, 1)))
    if kind(m) == "cubic":
        for v in (None, "yes", 2.5, []):
            D.append(("flag", repr(v), lambda a, v=v: v))
    if helper_:
        for v in ("Linear", "", "quadratic", None, 0, b"linear", "linearcubic"):
            D.append(("method", repr(v), lambda a, v=v: v))
    return D

def sub(x, i, v):
    if not is_arr(x):
        return x
    y = x.copy()
    y[i] = v
    return y
def shaped(a):
    try:
        return a["vals"].reshape(a["dims"])
    except Exception:
        return a["vals"]

# ------------------------------------------------------------------ what is right (from the documentation alone)
def is_arr(x):
    return isinstance(x, np.ndarray)
def ok_raw(x, dt):
    """A one-dimensional contiguous array of the right type."""
    return is_arr(x) and x.dtype == np.dtype(dt) and x.dtype.isnative and x.ndim == 1 and x.flags.c_contiguous
def ints(d):
    return isinstance(d, (list, tuple)) and all(isinstance(v, int) and not isinstance(v, bool) for v in d) or is_arr(d) and d.dtype.kind == "i"
ALL, ANY = "all", "any"
def join(l):
    """False if anything is wrong, None if anything is unspecified, else True."""
    l = list(l)
    if any(v is False for v in l):
        return False
    return None if any(v is None for v in l) else True

def grid_ok(entry, m, reg, dt, a, cls):
    """Judge grid, values."""
    mn, mx = min_n(m), max_nd(m)
    J = []
    vals = a["vals"]
    if entry == "raw bounds":
        vals = ...  # not an argument of this call
        mn, mx = 1, 8
    raw_ = entry.startswith("raw")
    helper_ = entry.startswith("helper")
    if reg and not helper_:
        d, s, h = a["dims"], a["starts"], a["steps"]
        if not ints(d):
            return False
        d = [int(v) for v in d]
        J.append(True if isinstance(a["dims"], list) or raw_ else None)
        if any(v < 0 or v >= 2 ** 64 for v in d):
            return False
        for x in (s, h):
            if raw_:
                J.append(ok_raw(x, dt))
            elif not is_arr(x):
                # the fields of a class are also restored from lists and JSON text
                if isinstance(x, (list, str)) and cls:
                    return None
                J.append(False)
            elif x.dtype != np.dtype(dt) or not x.dtype.isnative or entry == "class ctor" and x.ndim != 1:
                J.append(None)  # `new` documents a cast; fields given directly are taken as they are
        if False in J:
            return False
        nd = len(d)
        J.append(1 <= nd <= mx)
        J.append(s.size == nd and h.size == nd)
        if entry == "raw bounds":
            J.append(None if any(v < 2 for v in d) else True)
        else:
            J.append(True if all(v >= mn for v in d) else None if entry == "class bounds" else False)
        if h.dtype.kind in "fiub":
            hv = h.astype(dt).ravel()
            J.append((None if entry == "raw bounds" else False) if np.any(hv <= 0) else None if not np.all(np.isfinite(hv)) or np.any(hv < 1e-30) else True)
        else:
            J.append(None)
        if s.dtype.kind == "f" and not np.all(np.abs(s.astype(dt)) < 1e30):
            J.append(None)  # coordinates may become unrepresentable
    else:
        g = a["grids"]
        if not isinstance(g, (list, tuple)):
            return False
        J.append(True if isinstance(g, list) or not cls else None)
        nd = len(g)
        J.append(1 <= nd <= mx)
        for x in g:
            if raw_:
                J.append(ok_raw(x, dt))
            elif not is_arr(x):
                if isinstance(x, (list, str)) and cls:
                    return None
                J.append(False)
            elif x.dtype != np.dtype(dt) or not x.dtype.isnative:
                J.append(None)
            elif x.ndim != 1:
                J.append(None)
        if False in J:
            return False
        for x in g:
            if x.dtype.kind not in "fiub":
                J.append(None)
                continue
            y = x.astype(dt).ravel()
            if entry == "raw bounds":
                J.append(False if y.size == 0 else None if y.size < 2 else True)
            else:
                J.append(True if y.size >= mn else None if entry == "class bounds" and y.size else False)
            if y.size >= 2:
                with np.errstate(all="ignore"):
                    dy = np.diff(y)
                fin = bool(np.all(np.isfinite(y)))
                if entry == "raw bounds":
                    J.append(True if fin and np.all(dy > 0) else None)
                elif fin:
                    J.append(True if np.all(dy > 0) else False if cls or dy[0] <= 0 else None)
                else:
                    J.append(None)
        d = [int(x.size) for x in g]
    if vals is not ...:
        if raw_:
            J.append(ok_raw(vals, dt))
        elif not is_arr(vals):
            if isinstance(vals, (list, str)) and cls:
                return None
            J.append(False)
        elif helper_:
            J.append(vals.dtype == np.dtype(dt))
            J.append(None if not vals.dtype.isnative else True)
        elif vals.dtype != np.dtype(dt) or not vals.dtype.isnative or entry == "class ctor" and vals.ndim != 1:
            J.append(None)
        if False in J:
            return False
        p = 1
        for v in d:
            p *= v
        J.append(vals.size == p)
    return join(J)

def call_ok(entry, m, reg, dt, a):
    cls = entry.startswith("class")
    if kind(m) == "cubic" and entry != "raw bounds" and not isinstance(a["flag"], bool):
        fl = None if cls or entry.startswith("helper") else False
    else:
        fl = True
    g = grid_ok(entry, m, reg, dt, a, cls)
    if g is False:
        return False
    J = [g, fl]
    o = a["obs"]
    nd = len(a["dims"]) if reg and not entry.startswith("helper") else len(a["grids"])
    if isinstance(o, np.ndarray):
        # an array is a sequence of its rows: not judged unless the rows are bad
        return False if o.ndim < 1 or len(o) != nd or o.ndim == 1 and entry != "class bounds" else None
    if not isinstance(o, (list, tuple)):
        return False
    if cls and is_arr(a["vals"]) and a["vals"].dtype != np.dtype(dt):
        return False if len(o) != nd else None  # the values decide the type of the object
    J.append(len(o) == nd)
    if entry.startswith("helper") or entry == "class bounds":
        for x in o:
            J.append(is_arr(x))
        if False in J:
            return False
        for x in o:
            # a given type that does not match is an error; other byte orders are not judged
            J.append(x.dtype == np.dtype(dt) if x.dtype.isnative else None)
            if x.ndim != 1:
                J.append(None if x.size != o[0].size or x.shape != o[0].shape else True)
    else:
        for x in o:
            J.append(ok_raw(x, dt) if not is_arr(x) or x.dtype.isnative else None)
    if False in J:
        return False
    if any(x.dtype.kind == "f" and not np.all(np.isfinite(x)) for x in o):
        J.append(None)  # not-a-number points are a matter of C17
    if len({x.size for x in o}) > 1:
        J.append(None if "bounds" in entry else False)
    if "bounds" in entry:
        J.append(isinstance(a["atol"], float))
        if entry == "raw bounds":
            f = a["flags"]
            J.append(is_arr(f) and f.dtype == bool and f.ndim == 1 and f.flags.c_contiguous and f.flags.writeable and f.size == nd)
        return join(J)
    if entry.startswith("helper"):
        J.append(a["method"] in ("linear", "cubic", "nearest"))
    out = a["out"]
    if out is None:
        J.append(not entry.startswith("raw"))
        return join(J)
    if not is_arr(out):
        return False
    if out.dtype != np.dtype(dt) or not out.flags.writeable or out.size != o[0].size:
        return False
    if not out.dtype.isnative:
        return None
    if not entry.startswith("helper"):
        J.append(out.ndim == 1 and out.flags.c_contiguous)
    elif out.shape != o[0].shape:
        J.append(None)
    if any(out is x or np.shares_memory(out, x) for x in list(o) + ([a["vals"]] if is_arr(a["vals"]) else [])):
        J.append(None)
    return join(J)

# ------------------------------------------------------------------ the calls
def run_call(entry, m, reg, dt, a):
    k = kind(m)
    lin = [a["flag"]] if k == "cubic" else []
    if entry == "raw":
        f = raw_fn(m, reg, dt)
        f(*([a["dims"], a["starts"], a["steps"]] if reg else [a["grids"]]), a["vals"], *lin, a["obs"], a["out"])
        return a["out"]
    if entry == "raw bounds":
        f = getattr(raw, f"check_bounds_{'regular' if reg else 'rectilinear'}_{'f64' if dt is np.float64 else 'f32'}")
        f(*([a["dims"], a["starts"], a["steps"]] if reg else [a["grids"]]), a["obs"], a["atol"], a["flags"])
        return None
    if entry.startswith("class"):
        C = CLASSES[(k, reg)]
        kw = {"linearize_extrapolation": a["flag"]} if k == "cubic" else {}
        if entry == "class ctor":
            A = lambda x: (ArrayF64 if is_arr(x) and x.dtype == np.float64 else ArrayF32)(data=x)
            c = C(dims=a["dims"], starts=A(a["starts"]), steps=A(a["steps"]), vals=A(a["vals"]), **kw) if reg else C(grids=[A(x) for x in a["grids"]], vals=A(a["vals"]), **kw)
        else:
            c = C.new(a["dims"], a["starts"], a["steps"], a["vals"], **kw) if reg else C.new(a["grids"], a["vals"], **kw)
        if entry == "class bounds":
            r = c.check_bounds(a["obs"], a["atol"])
            assert r.dtype == bool and r.shape == (c.ndims(),)
            return None
        return c.eval_unchecked(a["obs"], a["out"]) if entry == "class unchecked" else c.eval(a["obs"], a["out"])
    kw = {"linearize_extrapolation": a["flag"]} if k == "cubic" else {}
    return pkg.interpn(a["obs"], a["grids"], a["vals"], method=a["method"], out=a["out"], assume_regular=entry == "helper-regular", **kw)

def roots(a):
    """Every array (and the buffer behind it) and every list among the inputs."""
    A, Ls = [], []
    for n in ("starts", "steps", "grids", "vals", "obs"):
        x = a[n]
        for y in x if isinstance(x, (list, tuple)) else [x]:
            if is_arr(y):
                while y.base is not None and is_arr(y.base):
                    y = y.base
                A.append((n, y))
        if isinstance(x, list):
            Ls.append((n, x))
    if isinstance(a["dims"], list):
        Ls.append(("dims", a["dims"]))
    return A, Ls

def one(rep, entry, m, reg, dt, a, what):
    exp = call_ok(entry, m, reg, dt, a)
    A, Ls = roots(a)
    snap = [y.tobytes() if y.dtype != object else y.tolist() for _, y in A]
    meta = [(y.shape, y.dtype, y.strides) for _, y in A]
    ls = [list(x) for _, x in Ls]
    rep.states += 1
    rep.transitions += 1
    got = None
    try:
        with np.errstate(all="ignore"):
            got = run_call(entry, m, reg, dt, a)
        res = "accepted"
    except Exception as e:
        res = f"{type(e).__name__}: {str(e)[:120]}"
    except BaseException as e:
        rep.violation(f"{what}: not an ordinary exception: {type(e).__name__}: {str(e)[:200]}")
        return
    rep.traces += 1
    rep.outcome((entry, m, reg, exp, res.split(":")[0]))
    if exp is True and res != "accepted":
        rep.violation(f"{what}: correct arguments, but {res}")
    elif exp is False and res == "accepted":
        rep.violation(f"{what}: wrong arguments, but no exception")
    elif exp is None:
        rep.note("unspecified combinations (only panics and modified inputs judged)")
    else:
        rep.note("expected to raise" if exp is False else "expected to be accepted")
    if exp is True and res == "accepted" and "bounds" not in entry:
        if not is_arr(got) or (a["out"] is not None and got is not a["out"]) or got.shape != a["obs"][0].shape or got.dtype != np.dtype(dt) or (not np.all(np.isfinite(got)) and np.all([np.all(np.isfinite(x)) for x in a["obs"]])):
            rep.violation(f"{what}: accepted, but the result is not right: {type(got).__name__} {getattr(got, 'shape', '')}")
    out_root = a["out"]
    while is_arr(out_root) and out_root.base is not None and is_arr(out_root.base):
        out_root = out_root.base
    for (n, y), s, mt in zip(A, snap, meta):
        if y is out_root and res == "accepted":
            continue  # the caller asked for this memory to be written
        if (y.tobytes() if y.dtype != object else y.tolist()) != s or (y.shape, y.dtype, y.strides) != mt:
            rep.violation(f"{what}: {n} was modified by the call ({res})")
    for (n, x), s in zip(Ls, ls):
        if len(x) != len(s) or any(p is not q for p, q in zip(x, s)):
            rep.violation(f"{what}: the list {n} was modified by the call ({res})")

def apply(a, devs):
    b = dict(a)
    b["grids"], b["obs"], b["dims"] = list(a["grids"]), list(a["obs"]), list(a["dims"])
    for arg, l, f in devs:
        try:
            b[arg] = f(b)
        except Exception:
            return None
    return b

ENTRIES = ["raw", "raw bounds", "class eval", "class unchecked", "class ctor", "class bounds", "helper", "helper-regular"]

def singles(entry, m, reg, dt, nd):
    def run(rep):
        what = f"{entry} {m} {'regular' if reg else 'rectilinear'} {np.dtype(dt)} {nd}-D"
        a = base_args(m, reg, dt, nd)
        one(rep, entry, m, reg, dt, apply(a, []), f"{what}: nothing changed")
        if nd <= max_nd(m):
            assert call_ok(entry, m, reg, dt, apply(a, [])) is True
        for arg, l, f in deviations(entry, m, reg, dt, nd):
            b = apply(base_args(m, reg, dt, nd), [(arg, l, f)])
            if b is not None:
                one(rep, entry, m, reg, dt, b, f"{what}: {arg} {l}")
        # no output given; no points; many points
        if "bounds" not in entry:
            for npts in (0, 1, 2, 17):
                a = base_args(m, reg, dt, nd, npts)
                one(rep, entry, m, reg, dt, a, f"{what}: {npts} points")
                if not entry.startswith("raw"):
                    a = base_args(m, reg, dt, nd, npts)
                    a["out"] = None
                    one(rep, entry, m, reg, dt, a, f"{what}: {npts} points, no output given")
        rep.sample(f"{what}: every single deviation")
    return run

def pairs(entry, m, reg, dt, nd):
    def run(rep):
        what = f"{entry} {m} {'regular' if reg else 'rectilinear'} {np.dtype(dt)} {nd}-D"
        D = deviations(entry, m, reg, dt, nd)
        for p, q in itertools.combinations(D, 2):
            if p[0] == q[0] and p[0] not in ("obs", "grids"):
                continue
            b = apply(base_args(m, reg, dt, nd), [p, q])
            if b is None:
                continue
            one(rep, entry, m, reg, dt, b, f"{what}: {p[0]} {p[1]} + {q[0]} {q[1]}")
    return run

def descents(m, dt, nd, ax):
    """One pair of neighbouring nodes out of order or equal, at every place of a short axis and many places of long ones."""
    def run(rep):
        mn = min_n(m)
        for n in [mn, mn + 1, mn + 3, 9, 17, 33, 70, 130, 300, 1030, 4100] if nd == 1 else [mn, mn + 2, 40]:
            near = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 98, 99, 100, 126, 127, 128, 254, 255, 256, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, n // 2, n - 4, n - 3, n - 2}
            for i in [None] + [i for i in range(n - 1) if n <= 33 or i in near]:
                for how in ("equal", "swapped", "just below") if i is not None else ("as it is",):
                    a = base_args(m, False, dt, nd)
                    g = np.cumsum(np.resize(np.array([0.5, 1.0, 0.25, 2.0], dtype=dt), n)).astype(dt)
                    if how == "equal":
                        g[i + 1] = g[i]
                    elif how == "swapped":
                        g[i], g[i + 1] = g[i + 1], g[i]
                    elif how == "just below":
                        g[i + 1] = np.nextafter(g[i], dt(-np.inf))
                    a["grids"][ax] = g
                    a["vals"] = dense(int(np.prod([len(x) for x in a["grids"]])), 3, dt)
                    for e in ("class eval", "class unchecked", "class bounds", "class ctor"):
                        one(rep, e, m, False, dt, apply(a, []), f"{e} {m} {np.dtype(dt)} {nd}-D: axis {ax} of {n} nodes, nodes {i} and the next {how}")
    return run

def cases(thorough):
    for m in METHODS:
        for dn, dt in F.items():
            for nd in (1, 2, 3, 5):
                for ax in range(nd):
                    if m != "cubicQ" or thorough:
                        yield f"descent/{m}/{dn}/{nd}/{ax}", descents(m, dt, nd, ax)
    for m in METHODS:
        for reg in (True, False):
            for dn, dt in F.items():
                for e in ENTRIES:
                    if e.startswith("helper-") and not reg:
                        continue
                    if m == "cubicQ" and e not in ("raw", "class eval", "helper") and not thorough:
                        continue
                    for nd in range(1, max_nd(m) + 3):
                        if kind(m) == "cubic" and nd > 8:
                            continue  # 4^9 values and more: the dimension limit is judged by the smaller methods and c13
                        yield f"single/{e}/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", singles(e, m, reg, dt, nd)
                    for nd in ((1, 2, 3) if thorough else (1, 2)):
                        if nd == 2 and not thorough and (m == "cubicQ" or (dn == "f8") == (m == "nearest")):
                            continue
                        yield f"pair/{e}/{m}/{'reg' if reg else 'rect'}/{dn}/{nd}", pairs(e, m, reg, dt, nd)
