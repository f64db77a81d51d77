"""C29: interpolators cannot be changed, and every kind of copy is the same interpolator."""
import copy, pickle, itertools
import numpy as np
from interpn.serialization import ArrayF32, ArrayF64
from common import *
from c20 import same, same_results, arrays, bits

def copies():
    r = {"copy.copy": copy.copy, "copy.deepcopy": copy.deepcopy, "model_copy": lambda c: c.model_copy(), "model_copy(deep)": lambda c: c.model_copy(deep=True),
         "fields": lambda c: type(c)(**{f: getattr(c, f) for f in type(c).model_fields}), "validate itself": lambda c: type(c).model_validate(c),
         "in a list": lambda c: copy.deepcopy([c, c])[1]}
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        r[f"pickle {p}"] = lambda c, p=p: pickle.loads(pickle.dumps(c, p))
    return r

def config(m, reg, nd, sp, dt, salt):
    mn = min_n(m)
    ln = [mn + (a * 3 + salt) % (3 if nd < 4 else 2 if nd < 6 else 1) for a in range(nd)]
    grids = [axis(sp, ln[a], a, dt) for a in range(nd)]
    vals = dense(int(np.prod(ln)), salt, dt)
    obs = product([positions(g, "core" if nd <= 3 else "sides") for g in grids])
    if len(obs[0]) > 150:
        obs = [np.ascontiguousarray(o[:: len(o) // 100]) for o in obs]
    return ln, grids, vals, obs, make(m, reg, grids, vals)

def case(m, reg, nd, sp, dt, salt):
    def run(rep):
        ln, grids, vals, obs, c = config(m, reg, nd, sp, dt, salt)
        name = f"{type(c).__name__} {np.dtype(dt)} {ln}"
        ref = c.eval(obs).copy()
        json0 = c.model_dump_json()
        def intact(what):
            rep.transitions += 1
            if c.model_dump_json() != json0:
                rep.violation(f"{name}: {what} changed the interpolator")
                return False
            r = c.eval(obs)
            rep.evals += len(r)
            if not np.array_equal(bits(r), bits(ref), equal_nan=False):
                rep.violation(f"{name}: after {what} the results differ")
                return False
            return True
        # what it says about itself
        if c.ndims() != nd:
            rep.violation(f"{name}: ndims() is {c.ndims()}")
        d = c.dims if reg else c.dims()
        if list(d) != ln:
            rep.violation(f"{name}: dims {d}")
        # assignments and deletions
        other = config(m, reg, nd, sp, dt, salt + 1)[4]
        for f in list(type(c).model_fields) + ["ndims_", "extra", "_grids", "data"]:
            tries = []
            if f in type(c).model_fields:
                tries += [("itself", getattr(c, f)), ("another's", getattr(other, f)), ("None", None)]
                tries.append(("delete", None))
                if f == "linearize_extrapolation":
                    tries.append(("flipped", not c.linearize_extrapolation))
            elif not f.startswith("_"):
                tries.append(("new", 1))
            for w, v in tries:
                rep.states += 1
                try:
                    delattr(c, f) if w == "delete" else setattr(c, f, v)
                except Exception:
                    pass
                else:
                    rep.violation(f"{name}: {f} could be set ({w})")
                if not intact(f"setting {f} ({w})"):
                    return
        for fn, a in arrays(c):
            for f, v in (("data", np.zeros_like(a.data)), ("dtype", "float64"), ("more", 1)):
                rep.states += 1
                try:
                    setattr(a, f, v)
                except Exception:
                    pass
                else:
                    rep.violation(f"{name}: {fn}.{f} could be set")
                if not intact(f"setting {fn}.{f}"):
                    return
        # unknown fields are refused
        base = {f: getattr(c, f) for f in type(c).model_fields}
        for extra in ("extra", "dtype", "data", "dims_", "bounds") + (() if "linearize_extrapolation" in base else ("linearize_extrapolation",)):
            rep.states += 1
            try:
                type(c)(**base, **{extra: True})
            except Exception:
                pass
            else:
                rep.violation(f"{name}: unknown field {extra} accepted")
        # copies, copies of copies, and the original afterwards
        cs = copies()
        pairs = itertools.product(cs, cs) if nd <= 2 else [(k, None) for k in cs]
        for k1, k2 in pairs:
            try:
                e = cs[k1](c)
                if k2:
                    e = cs[k2](e)
            except Exception as x:
                rep.violation(f"{name}: {k1} {k2 or ''}: {type(x).__name__}: {str(x)[:200]}")
                continue
            rep.states += 1
            rep.transitions += 1
            w = same(c, e) or same_results(c, e, obs)
            if w:
                rep.violation(f"{name}: {k1} {k2 or ''}: {w}")
                return
            if k1 in ("copy.deepcopy", "model_copy(deep)", "in a list") or k1.startswith("pickle"):
                # independent: overwriting the copy's memory does not reach the original
                for fn, a in arrays(e):
                    if a.data.flags.writeable:
                        a.data[...] = np.nan
                if not intact(f"{k1} and overwriting the copy"):
                    return
        rep.traces += 1
        rep.outcome((name, sp, salt))
        rep.sample(f"{name}: {len(cs)} kinds of copy, every field assigned")
    return run

def cases(thorough):
    for m in METHODS:
        for reg in (True, False):
            for dn, dt in F.items():
                for nd in range(1, max_nd(m) + 1):
                    if kind(m) == "cubic" and nd > 6 and not thorough:
                        continue
                    for sp in ("d", "g") if reg else ("D", "G", "d"):
                        for salt in (0, 1, 2) if nd < 4 or thorough else (0,):
                            yield f"{m}/{'reg' if reg else 'rect'}/{dn}/{nd}{sp}{salt}", case(m, reg, nd, sp, dt, salt)
