SEEDS["s28-shared-flags"] = dict(property="C28", needs="two threads in the helper with bounds checks, one interrupted between its bounds check and its look at the flags",
 breaks="the bounds flags live in one module-level buffer, so a thread may see the other's flags",
 edits=[("src/interpn/__init__.py", '''        outb = np.zeros(len(grids), dtype=bool)
''', '''        outb = _FLAGS[: len(grids)]
        outb[:] = False
'''), ("src/interpn/__init__.py", '''def interpn(
    obs:''', '''# Room for one flag per dimension
_FLAGS = np.zeros(8, dtype=bool)


def interpn(
    obs:''')],
 py='''import sys, threading, numpy as np, interpn
g = [np.array([0.0, 1.0, 3.0])]; v = np.array([1.0, 2.0, 6.0])
good = lambda: interpn.interpn([np.array([0.5])], g, v, check_bounds=True)
bad = lambda: interpn.interpn([np.array([9.0])], g, v, check_bounds=True)
def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False
def other(f):
    sys.settrace(None)
    t = threading.Thread(target=refused, args=(f,)); t.start(); t.join()
d = interpn.__file__.rsplit("/", 1)[0]
for first, second, want in ((good, bad, False), (bad, good, True)):
    for k in range(200):
        n = [0]
        def tr(f, e, a):
            if not f.f_code.co_filename.startswith(d):
                return None
            if e == "line":
                n[0] += 1
                if n[0] == k:
                    other(second)
            return tr
        sys.settrace(tr)
        r = refused(first)
        sys.settrace(None)
        assert r == want, (k, r)
''')
SEEDS["s28b-class-buffer"] = dict(property="C28", needs="two threads evaluating interpolators of one class, one interrupted between choosing the output and filling it, equal lengths",
 breaks="outputs of equal shape come from a buffer kept per class until it is filled",
 edits=[("src/interpn/nearest_rectilinear.py", '''        out_inner = out if out is not None else np.zeros_like(obs[0])
        self.eval_unchecked(obs, out_inner)

        return out_inner
''', '''        if out is not None:
            self.eval_unchecked(obs, out)
            return out

        # Evaluate in place of the observations' shape once, then hand out a copy
        spare = _SPARE.get(obs[0].dtype.char)
        if spare is None or spare.shape != obs[0].shape:
            spare = _SPARE[obs[0].dtype.char] = np.zeros_like(obs[0])
        self.eval_unchecked(obs, spare)
        return spare.copy()
'''), ("src/interpn/nearest_rectilinear.py", '''class NearestRectilinear(''', '''_SPARE: dict = {}


class NearestRectilinear(''')],
 py='''import sys, threading, numpy as np, interpn
g = np.array([0.0, 1.0, 3.0])
a = interpn.NearestRectilinear.new([g], np.array([1.0, 2.0, 6.0]))
b = interpn.NearestRectilinear.new([g], np.array([-1.0, -2.0, -6.0]))
x = [np.array([0.1, 2.9])]
d = interpn.__file__.rsplit("/", 1)[0]
for k in range(60):
    n = [0]
    def tr(f, e, _):
        if not f.f_code.co_filename.startswith(d):
            return None
        if e == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                t = threading.Thread(target=b.eval, args=(x,)); t.start(); t.join()
        return tr
    sys.settrace(tr)
    r = a.eval(x)
    sys.settrace(None)
    assert np.array_equal(r, [1.0, 6.0]), (k, r)
''')
SEEDS["s29-pickle-rebuild"] = dict(property="C29", needs="a cubic interpolator on a regular grid with linearize_extrapolation=False, pickled and unpickled",
 breaks="pickling rebuilds the interpolator with the default extrapolation setting",
 edits=[("src/interpn/multicubic_regular.py", '''    def ndims(self) -> int:
''', '''    def __reduce__(self):
        # Rebuild through the constructor, so that what is loaded is validated again
        return (
            MulticubicRegular.new,
            (self.dims, self.starts.data, self.steps.data, self.vals.data),
        )

    def ndims(self) -> int:
''')],
 py='''import pickle, numpy as np, interpn
v = np.arange(6.0) ** 2
m = interpn.MulticubicRegular.new([6], np.array([0.0]), np.array([1.0]), v, linearize_extrapolation=False)
n = pickle.loads(pickle.dumps(m))
x = [np.array([-3.0, 2.5, 9.0])]
assert np.array_equal(m.eval(x), n.eval(x)), (m.eval(x), n.eval(x))
''')
SEEDS["s29b-thawed-array"] = dict(property="C29", needs="assigning to the data of a stored float32 array",
 breaks="the float32 array wrapper can be assigned to, changing the interpolator that holds it without any validation",
 edits=[("src/interpn/serialization.py", '''    data: NDArray[np.float32]
    dtype: Literal["float32"] = "float32"

    model_config = ConfigDict(frozen=True, extra="forbid", arbitrary_types_allowed=True)
''', '''    data: NDArray[np.float32]
    dtype: Literal["float32"] = "float32"

    model_config = ConfigDict(extra="forbid", arbitrary_types_allowed=True)
''')],
 py='''import numpy as np, interpn
g = np.array([0.0, 1.0, 3.0], dtype=np.float32)
m = interpn.MultilinearRectilinear.new([g], np.array([1.0, 2.0, 6.0], dtype=np.float32))
try:
    m.vals.data = np.zeros(3, dtype=np.float32)
except Exception:
    pass
assert m.eval([np.array([3.0], dtype=np.float32)])[0] == 6.0
''')
SEEDS["s27-last-node-flag"] = dict(property="C27", needs="the lookup of a rectilinear 1-D grid at exactly its last node",
 breaks="the last node is reported as outside the grid",
 edits=[("src/one_dim/mod.rs", '''            x if x > self.grid[self.grid.len() - 1] => Extrap::OutsideHigh,''', '''            x if x >= self.grid[self.grid.len() - 1] => Extrap::OutsideHigh,''')],
 rust='''use interpn::one_dim::{Extrap, RectilinearGrid1D};
fn main() {
    let g = RectilinearGrid1D::new(&[0.0f64, 1.0, 3.0], &[1.0, 2.0, 6.0]).unwrap();
    let (i, e) = g.index(3.0).unwrap();
    assert!(i == 1 && matches!(e, Extrap::Inside));
}
''')
SEEDS["s27b-error-replaced"] = dict(property="C27", needs="a user-written 1-D grid whose lookup fails for some locations, batch evaluation",
 breaks="batch evaluation keeps going past a failing location and reports success, leaving a zero there",
 edits=[("src/one_dim/mod.rs", '''            out[i] = self.eval_one(locs[i])?;
''', '''            out[i] = match self.eval_one(locs[i]) {
                Ok(v) => v,
                // Only unrepresentable locations are errors
                Err(e) if !locs[i].is_finite() => return Err(e),
                Err(_) => T::zero(),
            };
''')],
 rust='''use interpn::one_dim::{Extrap, Grid1D, GridSample, Interp1D};
use interpn::Linear1D;
struct G;
impl<'a> Grid1D<'a, f64> for G {
    fn at(&self, loc: f64) -> Result<GridSample<f64>, &'static str> {
        if loc > 1.0 {
            return Err("no data");
        }
        Ok(GridSample { x0: 0.0, y0: 1.0, x1: 1.0, y1: 3.0, extrap: Extrap::Inside })
    }
}
fn main() {
    let mut o = [0.0; 2];
    assert_eq!(Linear1D::new(G).eval(&[0.5, 2.0], &mut o), Err("no data"));
}
''')
SEEDS["s24d-zero-guard"] = dict(property="C24", needs="linear method, rectilinear grid of 2 to 6 dimensions, node spacing much finer than one",
 breaks="a guard against zero-width cells is added to every width, so the normalized coordinate of fine grids loses digits",
 edits=[("src/multilinear/rectilinear.rs", '''                                let step = x1 - x0;
''', '''                                let step = x1 - x0 + T::epsilon(); // never zero
''')],
 rust='''use interpn::multilinear::rectilinear::interpn;
fn main() {
    let h = 1.0f64 / (1u64 << 40) as f64;
    let g = [0.0, h, 3.0 * h];
    let mut o = [0.0; 3];
    let v = [1.0, 1.0, 2.0, 2.0, 5.0, 5.0];
    interpn(&[&g, &[0.0, 1.0]], &v, &[&[0.75 * h, 2.0 * h, 3.0 * h], &[0.5; 3]], &mut o).unwrap();
    for (a, b) in o.iter().zip([1.75, 3.5, 5.0]) {
        assert!((a - b).abs() < 1e-14, "{a} {b}");
    }
}
''')
