SEEDS["s01b-flat-cell"] = dict(property="C01", needs="a table of very small values (differences below machine epsilon), recursive linear method on a regular grid",
 breaks="small tables are treated as constant in each cell",
 edits=[("src/multilinear/regular_recursive.rs", '''                let dy = vals[1] - y0;

                #[cfg''', '''                let dy = vals[1] - y0;

                // Nothing to do on a flat cell
                if dy.abs() < T::epsilon() {
                    return y0;
                }

                #[cfg''')],
 rust='''use interpn::multilinear::regular_recursive::MultilinearRegularRecursive as M;
fn main() {
    let vals = [1e-18, 3e-18, 2e-18];
    let f = M::<f64, 1>::new(&[3], &[0.0], &[1.0], &vals).unwrap();
    let y = f.interp_one(&[0.5]).unwrap();
    assert!((y - 2e-18).abs() < 1e-24, "{y}");
}
''')
SEEDS["s02b-near-uniform"] = dict(property="C02", needs="a rectilinear grid whose neighbouring spacings differ by less than a millionth but are not equal",
 breaks="slopes on almost even grids come from the even-spacing formula",
 edits=[("src/multicubic/mod.rs", '''    let a = h01 / (h01 + h12);
    let b''', '''    // Nearly even spacing does not need the general formula
    let h = h01 + h12;
    if ((h01 - h12) / h).abs() < T::epsilon().sqrt() * T::from(32).unwrap_or(T::zero()) {
        return (y2 - y0) / h;
    }

    let a = h01 / (h01 + h12);
    let b''')],
 rust='''use interpn::multicubic::rectilinear::interpn;
fn main() {
    let g = [0.0f64, 1.0, 2.0000004, 3.0, 4.0];
    let vals: Vec<f64> = g.iter().map(|x| x * x * 100.0).collect();
    let mut o = [0.0];
    interpn(&[&g[..]], &vals, true, &[&[1.25]], &mut o).unwrap();
    assert!((o[0] - 156.25).abs() < 1e-9, "{}", o[0]);
}
''')
SEEDS["s03b-three-outside"] = dict(property="C03", needs="a point outside the grid on three or more axes at once, cubic method above four dimensions (or the recursive type) on a regular grid, linearized extrapolation",
 breaks="corner regions outside three axes are extrapolated quadratically although linearization is on",
 edits=[("src/multicubic/regular_recursive.rs", '''                    self.linearize_extrapolation,
''', '''                    // Far corners have no edge slope to hold
                    self.linearize_extrapolation
                        && sat.iter().filter(|s| matches!(s, Saturation::OutsideLow | Saturation::OutsideHigh)).count() < 3,
''')],
 rust='''use interpn::multicubic::regular::interpn;
fn main() {
    let n = 5;
    let vals: Vec<f64> = (0..1024).map(|i| ((i * 37) % 11) as f64).collect();
    let y = |k: usize, d: f64| {
        // outside on k axes by d, inside on the rest
        let x: Vec<[f64; 1]> = (0..n).map(|a| [if a < k { 3.0 + d } else { 1.5 }]).collect();
        let xs: Vec<&[f64]> = x.iter().map(|v| &v[..]).collect();
        let mut o = [0.0];
        interpn(&[4; 5], &[0.0; 5], &[1.0; 5], &vals, true, &xs, &mut o).unwrap();
        o[0]
    };
    for k in 1..=4usize {
        // outside k axes the result is a polynomial of degree k in the distance
        let d: Vec<f64> = (0..k + 2).map(|i| y(k, 1.0 + i as f64)).collect();
        let mut v = d.clone();
        for _ in 0..k + 1 {
            v = v.windows(2).map(|w| w[1] - w[0]).collect();
        }
        let m = d.iter().fold(1.0f64, |a, x| a.max(x.abs()));
        assert!(v[0].abs() < 1e-9 * m, "{k} axes: {} of {m}", v[0]);
    }
}
''')
SEEDS["s04b-soft-tie"] = dict(property="C04", needs="a point right of a midpoint by less than 1e-9 of a cell (regular grid)",
 breaks="points just right of a midpoint take the left node, which is not the closest",
 edits=[("src/nearest/regular.rs", "                let offset = if dt <= half {", '''                // Points within rounding of the midpoint count as ties
                let tol = T::epsilon().sqrt();
                let offset = if dt <= half + tol {''')],
 rust='''use interpn::nearest::regular::interpn;
fn main() {
    let mut o = [0.0];
    interpn(&[3], &[0.0], &[1.0], &[10.0, 20.0, 30.0], &[&[1.500000001f64]], &mut o).unwrap();
    assert_eq!(o, [30.0]);
}
''')
SEEDS["s05b-snap-up"] = dict(property="C05", needs="a location just below a grid point (within 1e-8 of a cell), hold-last rule",
 breaks="points just below a node already take its value",
 edits=[("src/one_dim/mod.rs", '''        let i = ((self.grid.partition_point(|v| v < &loc) as isize - 1).max(0) as usize)
            .min(self.grid.len() - 2);
''', '''        let mut i = ((self.grid.partition_point(|v| v < &loc) as isize - 1).max(0) as usize)
            .min(self.grid.len() - 2);

        // Points within rounding of the upper end belong to the next cell
        let dx = self.grid[i + 1] - self.grid[i];
        if i + 2 < self.grid.len() && self.grid[i + 1] - loc < dx * T::epsilon().sqrt() {
            i += 1;
        }
''')],
 rust='''use interpn::one_dim::{Interp1D, RectilinearGrid1D, hold::Left1D};
fn main() {
    let g = [0.0, 1.0, 2.0, 3.0];
    let v = [10.0, 20.0, 30.0, 40.0];
    let f = Left1D::new(RectilinearGrid1D::new(&g, &v).unwrap());
    assert_eq!(f.eval_one(1.0 - 1e-9).unwrap(), 10.0);
}
''')
SEEDS["s07b-alloc-flag"] = dict(property="C07", needs="the allocating variant of the rectilinear cubic function, linearized extrapolation off, a point outside, data that is not linear",
 breaks="the allocating variant linearizes extrapolation whatever it is told",
 edits=[("src/multicubic/rectilinear.rs", "    interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;", "    interpn(grids, vals, linearize_extrapolation || grids.len() > 1, obs, &mut out)?;")],
 rust='''use interpn::multicubic::rectilinear::{interpn, interpn_alloc};
fn main() {
    let g = [0.0, 1.0, 2.0, 4.0];
    let v: Vec<f64> = (0..16).map(|i| ((i * 7) % 5) as f64).collect();
    let (a, b) = ([6.0], [-1.0]);
    let mut o = [0.0];
    interpn(&[&g[..], &g[..]], &v, false, &[&a, &b], &mut o).unwrap();
    let p = interpn_alloc(&[&g[..], &g[..]], &v, false, &[&a, &b]).unwrap();
    assert!((o[0] - p[0]).abs() < 1e-9, "{} {}", o[0], p[0]);
}
''')
SEEDS["s10b-node-snap"] = dict(property="C10", needs="a coordinate within about 1.5e-8 cells of a node but not on it, recursive cubic method on an uneven grid",
 breaks="a small jump near each node instead of continuity",
 edits=[("src/multicubic/mod.rs", '''    let a = k0 - dy;
    let b = -k1 + dy;
''', '''    // On a grid point, the value is known exactly
    if t.abs() < T::epsilon().sqrt() {
        return y0;
    }

    let a = k0 - dy;
    let b = -k1 + dy;
''')],
 rust='''use interpn::multicubic::rectilinear::interpn;
fn main() {
    let g = [0.0, 1.0, 2.5, 3.0, 4.0];
    let v = [1.0, 2.0, -5.0, 3.0, 7.0];
    let x: [f64; 2] = [2.5 + 1e-9, 2.5 + 2e-9];
    let mut o = [0.0; 2];
    for _ in 0..1 {
        interpn(&[&g[..]], &v, true, &[&x], &mut o).unwrap();
    }
    let y: Vec<f64> = (1..60)
        .map(|k| {
            let mut o = [0.0];
            interpn(&[&g[..]], &v, true, &[&[1.0 + k as f64 * 1e-9]], &mut o).unwrap();
            o[0]
        })
        .collect();
    let d: Vec<f64> = y.windows(2).map(|w| (w[1] - w[0]).abs()).collect();
    let (lo, hi) = d.iter().fold((f64::MAX, 0.0f64), |a, x| (a.0.min(*x), a.1.max(*x)));
    assert!(hi < 3.0 * lo + 1e-14, "{lo} {hi}");
}
''')
SEEDS["s11b-tiny-values"] = dict(property="C11", needs="values in units so small that differences are below 1e-30, linear method up to six dimensions on a regular grid",
 breaks="changing the unit of the values changes the relative result",
 edits=[("src/multilinear/regular.rs", "                                let dy = store[IND][1] - y0;", '''                                let dy = store[IND][1] - y0;
                                // Drop the denormal range early
                                let tiny = T::min_positive_value().sqrt().sqrt();
                                let dy = if dy.abs() < tiny { T::zero() } else { dy };'''),
],
 rust='''use interpn::multilinear::regular::interpn;
fn main() {
    for u in [1.0, 2f64.powi(-300)] {
        let vals: Vec<f64> = [1.0, 3.0, 2.0, 7.0].iter().map(|v| v * u).collect();
        let mut o = [0.0];
        interpn(&[2, 2], &[0.0; 2], &[1.0; 2], &vals, &[&[0.5], &[0.5]], &mut o).unwrap();
        assert!((o[0] / u - 3.25).abs() < 1e-12, "{u}: {}", o[0] / u);
    }
}
''')
SEEDS["s12b-chunk-of-four"] = dict(property="C12", needs="a batch of a length that is 3 modulo 4 and more than 64 points, flattened nearest on a regular grid",
 breaks="a remainder of three points in a long batch takes the wrong coordinates",
 edits=[("src/nearest/regular.rs", '''        for i in 0..n {
            (0..N).for_each(|j| tmp[j] = x[j][i]);
            out[i] = self.interp_one(tmp)?;
        }
''', '''        // Long batches go in blocks of four
        let nblock = if n > 256 { n / 4 } else { 0 };
        for b in 0..nblock {
            for i in 4 * b..4 * b + 4 {
                (0..N).for_each(|j| tmp[j] = x[j][i]);
                out[i] = self.interp_one(tmp)?;
            }
        }
        for i in 4 * nblock..n {
            let k = if nblock > 0 && n - 4 * nblock == 3 { n + 4 * nblock - 1 - i } else { i };
            (0..N).for_each(|j| tmp[j] = x[j][k]);
            out[i] = self.interp_one(tmp)?;
        }
''')],
 rust='''use interpn::nearest::regular::interpn;
fn main() {
    let v: Vec<f64> = (0..400).map(|i| i as f64).collect();
    for n in 1..400 {
        let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let mut o = vec![0.0; n];
        interpn(&[400], &[0.0], &[1.0], &v, &[&x], &mut o).unwrap();
        assert_eq!(o, x);
    }
}
''')
SEEDS["s13b-empty-batch"] = dict(property="C13", needs="an empty list of observation points, flattened cubic method on a rectilinear grid",
 breaks="an empty batch is rejected instead of accepted",
 edits=[("src/multicubic/rectilinear.rs", '''        let size_matches = x.iter().all(|&xx| xx.len() == out.len());
        if !size_matches {''', '''        let size_matches = n > 0 && x.iter().all(|&xx| xx.len() == n);
        if !size_matches {''')],
 rust='''use interpn::multicubic::rectilinear::interpn;
fn main() {
    let g = [0.0, 1.0, 2.0, 4.0];
    let mut o: [f64; 0] = [];
    interpn(&[&g[..]], &[1.0, 2.0, 3.0, 4.0], true, &[&[]], &mut o).unwrap();
}
''')
SEEDS["s14b-sticky-flag"] = dict(property="C14", needs="a flag slice that already holds true (reused from an earlier call), regular grid",
 breaks="flags of an earlier call are not overwritten",
 edits=[("src/multilinear/rectilinear.rs", "                out[i] = bad;", "                out[i] |= bad;")],
 rust='''use interpn::multilinear::rectilinear::check_bounds;
fn main() {
    let g = [0.0, 1.0];
    let mut f = [false];
    check_bounds(&[&g[..]], &[&[5.0f64]], 1e-8, &mut f).unwrap();
    assert_eq!(f, [true]);
    check_bounds(&[&g[..]], &[&[0.5f64]], 1e-8, &mut f).unwrap();
    assert_eq!(f, [false]);
}
''')
SEEDS["s15b-recursive-search"] = dict(property="C15", needs="long rectilinear axes (the stack grows with the number of halvings), flattened cubic method",
 breaks="the cell search recurses, so stack use grows with grid size",
 edits=[("src/multicubic/rectilinear.rs", "let iloc: isize = grid.partition_point(|x| *x < v) as isize - 2;", "let iloc: isize = lower_bound(grid, v, 0) as isize - 2;"),
 ("src/multicubic/rectilinear.rs", '''/// Calculate slopes and offsets & select evaluation method
''', '''/// Number of grid points below `v`
#[inline(never)]
fn lower_bound<T: Float>(grid: &[T], v: T, base: usize) -> usize {
    if grid.is_empty() {
        return base;
    }
    let mid = grid.len() / 2;
    let n = if grid[mid] < v {
        lower_bound(&grid[mid + 1..], v, base + mid + 1)
    } else {
        lower_bound(&grid[..mid], v, base)
    };
    n.max(base)
}

/// Calculate slopes and offsets & select evaluation method
''')],
 w=True,
 rust='''mod w;
use interpn::multicubic::rectilinear::MulticubicRectilinear as M;
use w::*;
// how deep the stack goes in one evaluation
fn depth(n: usize) -> usize {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let g: Vec<W> = (0..n).map(|i| W(i as f64 * 1.5)).collect();
            let v = g.clone();
            let gr = [&g[..]];
            let f = M::<W, 1>::new(&gr, &v, true).unwrap();
            LOW.with(|l| l.set(usize::MAX));
            let _ = f.interp_one([W(0.7)]).unwrap();
            let top = &f as *const _ as usize;
            top - LOW.with(|l| l.get())
        })
        .unwrap()
        .join()
        .unwrap()
}
fn main() {
    let (a, b) = (depth(8), depth(60000));
    assert!(b < a + 256, "stack depth {a} on 8 points, {b} on 60000");
}
''')
SEEDS["s16b-walk-nodes"] = dict(property="C16", needs="a point far along a long axis, one-dimensional regular grid",
 breaks="the node coordinate is accumulated step by step, so work grows with the index",
 edits=[("src/one_dim/mod.rs", '''        let x0 =
            self.start + self.step * <T as NumCast>::from(i).ok_or("Unrepresentable number")?;
''', '''        let x0 = (0..i).fold(self.start, |x, _| x + self.step);
''')],
 w=True,
 rust='''mod w;
use interpn::one_dim::{Interp1D, RegularGrid1D, linear::Linear1D};
use w::*;
fn cost(n: usize) -> u64 {
    let v: Vec<W> = (0..n).map(|i| W(i as f64)).collect();
    let f = Linear1D::new(RegularGrid1D::new(W(0.0), W(1.0), &v).unwrap());
    let a = OPS.with(|o| o.get());
    f.eval_one(W(n as f64 - 1.5)).unwrap();
    OPS.with(|o| o.get()) - a
}
fn main() {
    let (a, b) = (cost(4), cost(50_000));
    assert!(b <= a + 4, "{a} operations on 4 points, {b} on 50000");
}
''')
SEEDS["s17b-saturate-nan"] = dict(property="C17", needs="a NaN coordinate, nearest method, regular grid",
 breaks="a NaN coordinate gives a table value",
 edits=[("src/nearest/regular.rs", '''        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")?;
''', '''        let iloc = <isize as NumCast>::from(floc).unwrap_or(if floc < T::zero() {
            0 // far below
        } else {
            isize::MAX // far above
        });
''')],
 rust='''use interpn::nearest::regular::interpn;
fn main() {
    let mut o = [f64::NAN];
    let r = interpn(&[3], &[0.0], &[1.0], &[10.0, 20.0, 30.0], &[&[f64::NAN]], &mut o);
    assert!(r.is_err() || o[0].is_nan(), "{o:?}");
}
''')
SEEDS["s19b-memory-order"] = dict(property="C19", needs="two-dimensional observation arrays, one in C order and one in Fortran order, passed to the helper",
 breaks="observation arrays are read in memory order, so coordinates of different points are mixed",
 edits=[("src/interpn/__init__.py", "    obs = [np.ascontiguousarray(x.ravel()) for x in obs]", '''    obs = [np.ascontiguousarray(x.ravel(order="K")) for x in obs]''')],
 py='''import numpy as np
from interpn import interpn
g = np.linspace(0, 1, 5)
v = np.add.outer(g, 10 * g)
x, y = np.meshgrid(np.linspace(0, 1, 3), np.linspace(0, 1, 4), indexing="ij")
got = interpn([x, np.asfortranarray(y)], [g, g], v)
assert np.allclose(got, x + 10 * y), got
''')
SEEDS["s20b-negative-zero"] = dict(property="C20", needs="a table (or grid) containing negative zero, float64",
 breaks="negative zero comes back as positive zero",
 edits=[("src/interpn/serialization.py", '''class ArrayF64(BaseModel):''', '''def _clean(x: Any) -> Any:
    """Write whole numbers without a fraction, to save space"""
    if isinstance(x, list):
        return [_clean(v) for v in x]
    return int(x) if x == int(x) and abs(x) < 2**53 else x


class ArrayF64(BaseModel):'''),
 ("src/interpn/serialization.py", '''            y = np.ascontiguousarray(data.astype(np.float64))
        elif isinstance(data, list):
            y = np.array(data, dtype=np.float64)
        else:
            raise TypeError

        return y

    @field_serializer("data", return_type=str)
    def _serialize_x(data: Any) -> str:
        return json.dumps(data.tolist())''', '''            y = np.ascontiguousarray(data.astype(np.float64))
        elif isinstance(data, list):
            y = np.array(data, dtype=np.float64)
        else:
            raise TypeError

        return y

    @field_serializer("data", return_type=str)
    def _serialize_x(data: Any) -> str:
        return json.dumps(_clean(data.tolist()))''')],
 py='''import numpy as np
from interpn import NearestRegular as M
c = M.new([2], np.array([0.0]), np.array([1.0]), np.array([-0.0, 1.5]))
d = M.model_validate_json(c.model_dump_json())
assert np.signbit(d.vals.data[0]), d.vals.data
''')
SEEDS["s21b-first-two"] = dict(property="C21", needs="a rectilinear grid whose first two entries increase and a later one decreases, cubic class",
 breaks="a grid that is not increasing is accepted by the class",
 edits=[("src/interpn/multicubic_rectilinear.py", "all([np.all(np.diff(x.data) > 0.0) for x in self.grids])", "all([x.data[1] > x.data[0] for x in self.grids])")],
 py='''import numpy as np
from interpn import MulticubicRectilinear as M
try:
    M.new([np.array([0.0, 1.0, 2.0, 1.5, 3.0])], np.arange(5.0))
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
''')
