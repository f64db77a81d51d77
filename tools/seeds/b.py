SEEDS["s05-index-i32"] = dict(property="C05", needs="a coordinate more than 2^31 steps away from the start of a 1-D regular grid",
 breaks="1-D evaluation on a regular grid far outside fails with an error instead of extrapolating or holding",
 edits=[("src/one_dim/mod.rs", '''        let i = <isize as NumCast>::from(i)
            .ok_or("Unrepresentable number")?
            .max(0)
            .min((self.vals.len() - 2) as isize) as usize;''', '''        let i = <i32 as NumCast>::from(i)
            .ok_or("Unrepresentable number")?
            .max(0)
            .min((self.vals.len() - 2) as i32) as usize;''')],
 rust='''use interpn::one_dim::{Interp1D, RegularGrid1D, linear::LinearHoldLast1D};
fn main() {
    let vals = [1.0, 3.0, -2.0];
    let f = LinearHoldLast1D::new(RegularGrid1D::new(0.0, 1e-3, &vals).unwrap());
    for x in [-1e7, -10.0, 10.0, 1e7] {
        let e = if x < 0.0 { 1.0 } else { -2.0 };
        assert_eq!(f.eval_one(x).unwrap(), e);
    }
}
''')
SEEDS["s06-shortest-axis"] = dict(property="C06", needs="a rectilinear grid with an axis longer than an earlier one, and data that is not linear along it, in the recursive linear method",
 breaks="cells beyond the length of a shorter earlier axis are extrapolated from an inner cell; nodes there are not reproduced",
 edits=[("src/multilinear/rectilinear_recursive.rs", "        let n = self.dims[dim] as isize; // Number of grid points on this dimension",
 "        let n = self.dims[..=dim].iter().fold(self.dims[dim], |a, &b| a.min(b)) as isize; // Number of grid points on this dimension")],
 rust='''use interpn::multilinear::rectilinear_recursive::interpn;
fn main() {
    let (x, y) = ([0.0, 1.0], [0.0, 1.0, 3.0, 4.0]);
    let vals = [1.0, 2.0, 5.0, -3.0, 0.5, 9.0, 2.5, 7.0];
    for i in 0..2 {
        for j in 0..4 {
            let mut out = [0.0f64];
            interpn(&[&x[..], &y[..]], &vals, &[&[x[i]], &[y[j]]], &mut out).unwrap();
            assert!((out[0] - vals[i * 4 + j]).abs() < 1e-12, "{i} {j} {}", out[0]);
        }
    }
}
''')
SEEDS["s07-seven-dim-flag"] = dict(property="C07", needs="seven dimensions, extrapolation without linearization, data that is not linear, through the convenience function rather than the struct",
 breaks="the seven-dimensional arm of the convenience function ignores the extrapolation setting",
 edits=[("src/multicubic/regular.rs", '''        7 => MulticubicRegularRecursive::<'_, T, 7>::new(
            dims,
            starts,
            steps,
            vals,
            linearize_extrapolation,
        )?''', '''        7 => MulticubicRegularRecursive::<'_, T, 7>::new(
            dims,
            starts,
            steps,
            vals,
            true,
        )?''')],
 rust='''use interpn::multicubic::regular::interpn;
use interpn::multicubic::regular_recursive::MulticubicRegularRecursive;
fn main() {
    let vals: Vec<f64> = (0..4usize.pow(7)).map(|i| ((i * i * 31 + i * 7) % 97) as f64).collect();
    let (dims, starts, steps) = ([4; 7], [0.0; 7], [1.0; 7]);
    let p: [f64; 7] = [1.5, 1.25, 0.5, 3.75, 2.5, 1.5, 0.25];
    let obs: Vec<[f64; 1]> = p.iter().map(|&x| [x]).collect();
    let obs: Vec<&[f64]> = obs.iter().map(|x| &x[..]).collect();
    let mut out = [0.0f64];
    interpn(&dims, &starts, &steps, &vals, false, &obs, &mut out).unwrap();
    let e = MulticubicRegularRecursive::<f64, 7>::new(&dims, &starts, &steps, &vals, false).unwrap().interp_one(&p).unwrap();
    assert!((out[0] - e).abs() < 1e-9, "{} {e}", out[0]);
}
''')
SEEDS["s08-extrapolation-clamp"] = dict(property="C08", needs="a point more than 1024 cells above a regular grid, cubic method up to four dimensions",
 breaks="cubic extrapolation above a regular grid stops after 1024 cells while the rectilinear description continues",
 edits=[("src/multicubic/regular.rs", '''            let t = t - one;
            let y0 = vals[2];
            let y1 = vals[3];''', '''            let limit = <T as NumCast>::from(1024.0).unwrap_or(t);
            let t = (t - one).min(limit);
            let y0 = vals[2];
            let y1 = vals[3];''')],
 rust='''use interpn::multicubic::{rectilinear, regular};
fn main() {
    let vals = [1.0, 2.0, 5.0, -3.0, 0.5];
    let g = [0.0, 0.001, 0.002, 0.003, 0.004];
    for x in [0.005, 0.5, 1.5, 10.0] {
        let (mut a, mut b) = ([0.0f64], [0.0f64]);
        regular::interpn(&[5], &[0.0], &[0.001], &vals, true, &[&[x]], &mut a).unwrap();
        rectilinear::interpn(&[&g[..]], &vals, true, &[&[x]], &mut b).unwrap();
        assert!((a[0] - b[0]).abs() < 1e-9 * b[0].abs().max(1.0), "{x}: {} {}", a[0], b[0]);
    }
}
''')
SEEDS["s09-one-sided-slope"] = dict(property="C09", needs="a point in the first cell, recursive cubic regular method, data with a third difference (quadratics are still exact)",
 breaks="the first cell depends on the fourth node, outside its documented three-node neighbourhood",
 edits=[("src/multicubic/regular_recursive.rs", '''            let t = -t; // `t` always w.r.t. index 1 of cube
            let y0 = vals[1]; // Same starting point, opposite direction
            let dy = vals[0] - vals[1];

            let k0 = -(vals[2] - vals[0]) / two;
''', '''            let t = -t; // `t` always w.r.t. index 1 of cube
            let y0 = vals[1]; // Same starting point, opposite direction
            let dy = vals[0] - vals[1];

            // Correct the slope by the third difference, which is available at the edge
            let three = two + one;
            let d3 = (vals[3] - vals[0]) - three * (vals[2] - vals[1]);
            let k0 = -((vals[2] - vals[0]) / two - d3 / (two * three));
''')],
 rust='''use interpn::multicubic::regular_recursive::interpn;
fn main() {
    let mut vals = [1.0, 2.0, 5.0, -3.0, 0.5];
    let x = [0.0, 0.25, 0.5, 0.75, 1.0];
    let (mut a, mut b) = ([0.0; 5], [0.0; 5]);
    interpn(&[5], &[0.0], &[1.0], &vals, true, &[&x], &mut a).unwrap();
    vals[3] = 40.0; // not a neighbour of the first cell
    interpn(&[5], &[0.0], &[1.0], &vals, true, &[&x], &mut b).unwrap();
    assert_eq!(a, b);
}
''')
SEEDS["s10-left-slope"] = dict(property="C10", needs="two neighbouring interior cells on a regular grid, cubic method up to four dimensions, data with a third difference (quadratics are still exact)",
 breaks="the first derivative jumps at interior nodes",
 edits=[("src/multicubic/regular.rs", '''            // Take slopes from centered difference
            let k0 = (vals[2] - vals[0]) / two;
''', '''            // Take slopes from centered difference
            let three = two + one;
            let d3 = (vals[3] - vals[0]) - three * (vals[2] - vals[1]);
            let k0 = (vals[2] - vals[0]) / two - d3 / (two * three);
''')],
 rust='''use interpn::multicubic::regular::interpn;
fn main() {
    let vals = [1.0, 2.0, 5.0, -3.0, 0.5, 2.0, 8.0];
    let h = 1e-6;
    for node in 2..5 {
        let n = node as f64;
        let x = [n - h, n, n + h];
        let mut o = [0.0; 3];
        interpn(&[7], &[0.0], &[1.0], &vals, true, &[&x], &mut o).unwrap();
        let (l, r) = ((o[1] - o[0]) / h, (o[2] - o[1]) / h);
        assert!((l - r).abs() < 1e-3, "node {node}: slope {l} below, {r} above");
    }
}
''')
SEEDS["s11-spacing-floor"] = dict(property="C11", needs="a rectilinear axis in units so large that its spacing is below machine epsilon (2.2e-16), linear method up to six dimensions",
 breaks="a change of unit of the axis changes the results",
 edits=[("src/multilinear/rectilinear.rs", "let step = x1 - x0;", "let step = (x1 - x0).max(T::epsilon()); // never divide by zero")],
 all=True,
 rust='''use interpn::multilinear::rectilinear::interpn;
fn main() {
    let vals = [1.0, 2.0, 5.0];
    for u in [1.0, 2f64.powi(-40), 2f64.powi(-60)] {
        let g = [1.0 * u, 2.0 * u, 4.0 * u];
        let mut o = [0.0];
        interpn(&[&g[..]], &vals, &[&[3.0 * u]], &mut o).unwrap();
        assert!((o[0] - 3.5).abs() < 1e-12, "unit {u}: {}", o[0]);
    }
}
''')
SEEDS["s18-nostd-trunc"] = dict(property="C18", needs="the build without std, a point less than one step below a regular grid, recursive cubic method",
 breaks="without std, points just below the grid are taken as inside the first cell, so linearized extrapolation is not linear there",
 edits=[("src/multicubic/regular_recursive.rs", "        let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc", '''        let floc = (v - self.starts[dim]) / self.steps[dim];
        #[cfg(feature = "std")]
        let floc = floc.floor(); // float loc
        #[cfg(not(feature = "std"))]
        let floc = floc.trunc(); // no libm needed''')],
 nostd=True,
 rust='''use interpn::multicubic::regular_recursive::MulticubicRegularRecursive;
fn main() {
    let vals = [1.0, 2.0, 5.0, -3.0, 0.5];
    let f = MulticubicRegularRecursive::<f64, 1>::new(&[5], &[0.0], &[1.0], &vals, true).unwrap();
    let y = |x: f64| f.interp_one(&[x]).unwrap();
    // linear outside: the second difference vanishes
    for d in [0.25, 0.5, 0.75] {
        let e = y(-2.0) + (y(-3.0) - y(-2.0)) * -(2.0 - d);
        assert!((y(-d) - e).abs() < 1e-9, "{d}: {} {e}", y(-d));
    }
}
''')
SEEDS["s19-allclose"] = dict(property="C19", needs="a grid of 128 or more nodes that is almost but not exactly even (within 1e-9), passed to the helper without saying whether it is regular",
 breaks="the helper treats almost even long grids as regular: far along the axis cells are displaced",
 edits=[("src/interpn/__init__.py", "is_regular = is_regular and np.all(dgrid == dgrid[0])", "tol = 0.0 if grid.size < 128 else 1e-9  # long grids collect rounding\n        is_regular = is_regular and np.allclose(dgrid, dgrid[0], rtol=tol, atol=0.0)")],
 py='''import numpy as np
from interpn import interpn
n = 2001
g = np.arange(n) * 1.0
g[0] = -5e-10  # the first interval is a little wider
v = np.cos(np.arange(n) * 2.0)
x = g[1:-1:37]
got = interpn([x], [g], v)
assert np.abs(got - v[1:-1:37]).max() < 1e-9, np.abs(got - v[1:-1:37]).max()
''')
SEEDS["s20-f32-digits"] = dict(property="C20", needs="a float32 value that needs nine significant digits",
 breaks="saving and restoring a float32 interpolator changes some values in the last bit",
 edits=[("src/interpn/serialization.py", '''class ArrayF32(BaseModel):''', '''def _short(x: Any) -> Any:
    """Shorten float32 values, which have no more than 8 significant digits"""
    return [_short(v) for v in x] if isinstance(x, list) else float(f"{x:.8g}")


class ArrayF32(BaseModel):'''),
 ("src/interpn/serialization.py", '''    dtype: Literal["float32"] = "float32"

    model_config = ConfigDict(frozen=True, extra="forbid", arbitrary_types_allowed=True)

    @field_validator("data", mode="before")
    def _validate_x(data: Any) -> NDArray[np.float32]:
        if isinstance(data, str):
            y = np.ascontiguousarray(np.array(json.loads(data), dtype=np.float32))
        elif isinstance(data, np.ndarray):
            y = np.ascontiguousarray(data.astype(np.float32))
        elif isinstance(data, list):
            y = np.array(data, dtype=np.float32)
        else:
            raise TypeError

        return y

    @field_serializer("data", return_type=str)
    def _serialize_x(data: Any) -> str:
        return json.dumps(data.tolist())''', '''    dtype: Literal["float32"] = "float32"

    model_config = ConfigDict(frozen=True, extra="forbid", arbitrary_types_allowed=True)

    @field_validator("data", mode="before")
    def _validate_x(data: Any) -> NDArray[np.float32]:
        if isinstance(data, str):
            y = np.ascontiguousarray(np.array(json.loads(data), dtype=np.float32))
        elif isinstance(data, np.ndarray):
            y = np.ascontiguousarray(data.astype(np.float32))
        elif isinstance(data, list):
            y = np.array(data, dtype=np.float32)
        else:
            raise TypeError

        return y

    @field_serializer("data", return_type=str)
    def _serialize_x(data: Any) -> str:
        return json.dumps(_short(data.tolist()))''')],
 py='''import numpy as np
from interpn import MultilinearRegular as M
v = (np.arange(1000, dtype=np.uint32) * 389 + 0x447A0000).view(np.float32)
c = M.new([1000], np.array([0.0], np.float32), np.array([1.0], np.float32), v)
d = M.model_validate_json(c.model_dump_json())
assert np.array_equal(c.vals.data, d.vals.data), int((c.vals.data != d.vals.data).sum())
''')
SEEDS["s21-strided-panic"] = dict(property="C21", needs="an observation or grid array that is not contiguous, passed to a class or raw binding",
 breaks="a non-contiguous array panics through the language boundary (PanicException, not an Exception) instead of raising TypeError",
 edits=[("src/python.rs", "            _arr[i] = $inname[i].as_slice()?;", "            _arr[i] = $inname[i].as_slice().unwrap();")],
 py='''import numpy as np
from interpn import raw
x = np.linspace(0, 1, 20)[::2]
out = np.zeros(10)
try:
    raw.interpn_linear_regular_f64([2], np.array([0.0]), np.array([1.0]), np.array([0.0, 1.0]), [x], out)
    raise SystemExit("accepted")
except Exception:
    pass
''')
SEEDS["s22-alias-grid"] = dict(property="C22", needs="a rectilinear interpolator built from contiguous float64 grids that the caller changes afterwards",
 breaks="the interpolator shares the caller's grid arrays, so changing them changes its results",
 edits=[("src/interpn/serialization.py", "y = np.ascontiguousarray(data.astype(np.float64))", "y = np.ascontiguousarray(data, dtype=np.float64)")],
 py='''import numpy as np
from interpn import MultilinearRectilinear as M
g = np.array([0.0, 1.0, 3.0])
c = M.new([g], np.array([1.0, 2.0, 5.0]))
a = c.eval([np.array([2.0])])
g[2] = 9.0
b = c.eval([np.array([2.0])])
assert a[0] == b[0], (a, b)
''')
SEEDS["s22-output-cache"] = dict(property="C22", needs="two evaluations of one cubic regular interpolator with the same number of points, without output arrays, keeping the first result",
 breaks="the array returned by an evaluation is overwritten by the next one",
 edits=[("src/interpn/multicubic_regular.py", '''from .serialization import Array, ArrayF32, ArrayF64
''', '''from .serialization import Array, ArrayF32, ArrayF64

_scratch: dict = {}


def _buffer(x: NDArray) -> NDArray:
    """Output storage, kept for the next call of the same size"""
    key = (x.shape, x.dtype)
    if key not in _scratch:
        _scratch[key] = np.zeros_like(x)
    return _scratch[key]

'''),("src/interpn/multicubic_regular.py", '''        out_inner = out if out is not None else np.zeros_like(obs[0])
        self.eval_unchecked(obs, out_inner)''', '''        out_inner = out if out is not None else _buffer(obs[0])
        self.eval_unchecked(obs, out_inner)''')],
 py='''import numpy as np
from interpn import MulticubicRegular as M
c = M.new([4], np.array([0.0]), np.array([1.0]), np.array([1.0, 2.0, 5.0, 3.0]))
a = c.eval([np.array([0.0, 1.0])])
c.eval([np.array([2.0, 3.0])])
assert np.allclose(a, [1.0, 2.0]), a
''')
SEEDS["s23-check-after"] = dict(property="C23", needs="the helper with its bounds check on, a point outside, and a given output array",
 breaks="when the bounds check raises, the given output has already been overwritten",
 edits=[("src/interpn/__init__.py", '''        if any(outb):
            raise ValueError("Observation points violate interpolator bounds")

    # Do interpolation''', '''    # Do interpolation'''),
 ("src/interpn/__init__.py", '''    # Copy back if the flat''', '''    if check_bounds and any(outb):
        raise ValueError("Observation points violate interpolator bounds")

    # Copy back if the flat''')],
 py='''import numpy as np
from interpn import interpn
out = np.full(2, 7.0)
try:
    interpn([np.array([0.5, 3.0])], [np.array([0.0, 1.0])], np.array([1.0, 2.0]), out=out, check_bounds=True)
    raise SystemExit("not raised")
except ValueError:
    pass
assert np.all(out == 7.0), out
''')
