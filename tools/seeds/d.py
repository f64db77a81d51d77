SEEDS["s12c-torn-cache"] = dict(property="C12", needs="two threads evaluating rectilinear linear interpolators at the same time, one interrupted between two memory accesses",
 breaks="the last cell found is remembered in two separate atomics, and a reader between the two writes pairs one point with the cell of another",
 edits=[("src/multilinear/rectilinear.rs", '''        let iloc: isize = grid.partition_point(|x| *x < v) as isize - 1;
''', '''        let iloc: isize = {
            // The same point is often looked up again: keep its cell
            use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
            static LAST: AtomicU64 = AtomicU64::new(u64::MAX);
            static CELL: AtomicUsize = AtomicUsize::new(0);
            let sum = grid.iter().fold(0u64, |h, x| {
                (h ^ x.to_f64().map_or(0, f64::to_bits)).wrapping_mul(0x100000001b3).rotate_left(29)
            });
            let key = v.to_f64().map_or(0, f64::to_bits) ^ sum;
            if LAST.load(SeqCst) == key {
                CELL.load(SeqCst) as isize - 1
            } else {
                let i = grid.partition_point(|x| *x < v);
                LAST.store(key, SeqCst);
                CELL.store(i, SeqCst);
                i as isize - 1
            }
        };
''')],
 rust='''use interpn::multilinear::MultilinearRectilinear as M;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
fn main() {
    let bad = Arc::new(AtomicBool::new(false));
    let t: Vec<_> = (0..6)
        .map(|_| {
            let bad = bad.clone();
            std::thread::spawn(move || {
                let g: Vec<f64> = (0..6).map(|i| (i * i) as f64).collect();
                let v = [3.0, -1.0, 4.0, 1.0, -5.0, 9.0];
                let gs = [&g[..]];
                let m = M::new(&gs, &v).unwrap();
                let w: Vec<f64> = (0..5).map(|i| (v[i] + v[i + 1]) / 2.0).collect();
                for n in 0..3_000_000usize {
                    let i = (n * 7 + n / 3) % 5;
                    let x = (g[i] + g[i + 1]) / 2.0;
                    if (m.interp_one([x]).unwrap() - w[i]).abs() > 1e-9 || bad.load(SeqCst) {
                        bad.store(true, SeqCst);
                        return;
                    }
                }
            })
        })
        .collect();
    t.into_iter().for_each(|t| t.join().unwrap());
    assert!(!bad.load(SeqCst), "a concurrent evaluation gave a wrong result");
}
''')
SEEDS["s09b-blend-select"] = dict(property="C09", needs="a table with NaN or infinity at a node that is not the closest one but belongs to the cell, nearest method on a one-axis rectilinear grid",
 breaks="the value of the other node of the cell enters the result multiplied by zero, so a NaN or infinity there spoils it",
 edits=[("src/nearest/rectilinear.rs", '''        let interped = index_arr_fixed_dims(loc, dimprod, self.vals);
        Ok(interped)
''', '''        // With one axis there are only two candidates; blend them without indexing twice
        if N == 1 && loc[0] > 0 {
            let w = T::one();
            return Ok(self.vals[loc[0]] * w + self.vals[loc[0] - 1] * (w - w));
        }

        let interped = index_arr_fixed_dims(loc, dimprod, self.vals);
        Ok(interped)
''')],
 rust='''use interpn::nearest::rectilinear::interpn;
fn main() {
    let g = [0.0f64, 1.0, 3.0, 4.0];
    let vals = [f64::NAN, 2.0, f64::INFINITY, 4.0];
    let mut o = [0.0; 3];
    interpn(&[&g[..]], &vals, &[&[0.9, 1.1, 3.9]], &mut o).unwrap();
    assert_eq!(o, [2.0, 2.0, 4.0]);
}
''')
SEEDS["s18b-fma-edge"] = dict(property="C18", features=["fma"], needs="the crate built with the fma feature, a cubic evaluation below the grid of values that are not quadratic (regular grid, up to three axes)",
 breaks="with fma the slope held below the grid is a four-point formula, so builds with and without fma disagree there",
 edits=[("src/multicubic/regular.rs", '''        Saturation::OutsideLow => {
            //   t <-|
            // --|---|---|---|--
            // x
            //
            // Flip direction to maintain symmetry
            // with the InsideHigh case
            let t = -t; // `t` always w.r.t. index 1 of cube
            let y0 = vals[1]; // Same starting point, opposite direction
            let y1 = vals[0];
            let dy = vals[0] - vals[1];

            let k0 = -(vals[2] - vals[0]) / two;

            #[cfg(not(feature = "fma"))]
            let k1 = two * dy - k0; // Natural spline boundary condition
            #[cfg(feature = "fma")]
            let k1 = two.mul_add(dy, -k0); // Natural spline boundary condition
''', '''        Saturation::OutsideLow => {
            //   t <-|
            // --|---|---|---|--
            // x
            //
            // Flip direction to maintain symmetry
            // with the InsideHigh case
            let t = -t; // `t` always w.r.t. index 1 of cube
            let y0 = vals[1]; // Same starting point, opposite direction
            let y1 = vals[0];
            let dy = vals[0] - vals[1];

            let k0 = -(vals[2] - vals[0]) / two;

            #[cfg(not(feature = "fma"))]
            let k1 = two * dy - k0; // Natural spline boundary condition
            #[cfg(feature = "fma")]
            let k1 = two.mul_add(dy, -k0)
                - (vals[3] - vals[0] - (two + one) * (vals[2] - vals[1])) / (two * (two + one)); // Natural spline boundary condition
''')],
 rust='''use interpn::multicubic::regular::interpn;
fn main() {
    let vals = [5.0f64, 1.0, 0.0, 3.0, 2.0];
    // slopes: centered at node 1 is -2.5, dy is -4, natural end slope is 2*(-4)+2.5 = -5.5
    let mut o = [0.0; 1];
    interpn(&[5], &[0.0], &[1.0], &vals, true, &[&[-1.0]], &mut o).unwrap();
    assert!((o[0] - 10.5).abs() < 1e-12, "{o:?}");
    let v2 = [-5.0f64, -1.0, 0.0, -3.0, -2.0];
    interpn(&[5], &[0.0], &[1.0], &v2, true, &[&[-1.0]], &mut o).unwrap();
    assert!((o[0] + 10.5).abs() < 1e-12, "{o:?}");
}
''')
SEEDS["s25b-overflow-guard"] = dict(property="C25", needs="table entries whose differences exceed about 1e15 (f64), recursive linear method on a rectilinear grid",
 breaks="large differences are clipped, so results stop scaling with the table",
 edits=[("src/multilinear/rectilinear_recursive.rs", '''                let dy = vals[1] - y0;

                #[cfg''', '''                // Keep the product below from overflowing
                let big = T::one() / T::epsilon();
                let dy = (vals[1] - y0).max(-big).min(big);

                #[cfg''')],
 rust='''use interpn::multilinear::rectilinear_recursive::MultilinearRectilinearRecursive as M;
fn main() {
    let g = [0.0f64, 1.0, 3.0];
    let gs = [&g[..]];
    for s in [1.0, 1e10, 1e20] {
        let vals = [1.0 * s, 3.0 * s, -2.0 * s];
        let f = M::<f64, 1>::new(&gs, &vals).unwrap();
        let y = f.interp_one(&[0.5]).unwrap();
        assert!((y / s - 2.0).abs() < 1e-12, "{s} {y}");
    }
}
''')
SEEDS["s26b-meshgrid-strides"] = dict(property="C26", needs="meshgrid of three or more axes of different lengths",
 breaks="the index of the middle axes uses the first axis's length as stride, so points are repeated and others missing",
 edits=[("src/utils.rs", '''    x.into_iter()
        .multi_cartesian_product()
        .map(|xx| xx.iter().map(|y| **y).collect())
        .collect()
''', '''    if x.len() > 2 && x.iter().all(|v| !v.is_empty()) {
        // Decode each point's indices directly from its position in the list
        let n = x.iter().map(|v| v.len()).product::<usize>();
        let last = x[x.len() - 1].len();
        let mid = x[1].len();
        return (0..n)
            .map(|k| {
                let mut r = k / last;
                let mut p = vec![x[x.len() - 1][k % last]; x.len()];
                for j in (0..x.len() - 1).rev() {
                    p[j] = x[j][r % if j == 0 { x[0].len() } else { mid }.min(x[j].len())];
                    r /= mid.min(x[j].len());
                }
                p
            })
            .collect();
    }
    x.into_iter()
        .multi_cartesian_product()
        .map(|xx| xx.iter().map(|y| **y).collect())
        .collect()
''')],
 rust='''use interpn::utils::meshgrid;
fn main() {
    let ax: Vec<Vec<f64>> = [2usize, 3, 5, 2].iter().enumerate().map(|(a, &n)| (0..n).map(|i| (10 * a + i) as f64).collect()).collect();
    let m = meshgrid(ax.iter().collect());
    let mut want = vec![];
    for a in &ax[0] { for b in &ax[1] { for c in &ax[2] { for d in &ax[3] { want.push(vec![*a, *b, *c, *d]); } } } }
    assert_eq!(m, want);
}
''')
SEEDS["s17c-two-point-axis"] = dict(property="C17", needs="a NaN coordinate on an axis with exactly two nodes, nearest method on a rectilinear grid",
 breaks="NaN on a two-node axis gives a table value instead of an error",
 edits=[("src/nearest/rectilinear.rs", '''        let grid = self.grids[dim];

        // The comparisons''', '''        let grid = self.grids[dim];

        // There is only one cell
        if self.dims[dim] == 2 {
            return Ok(0);
        }

        // The comparisons''')],
 rust='''use interpn::nearest::rectilinear::interpn;
fn main() {
    let (g, h) = ([0.0f64, 1.0, 3.0], [0.0, 1.0]);
    let vals = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0];
    let mut o = [f64::NAN; 1];
    if interpn(&[&g[..], &h[..]], &vals, &[&[0.2], &[f64::NAN]], &mut o).is_ok() {
        assert!(o[0].is_nan(), "{o:?}");
    }
}
''')
SEEDS["s10c-edge-curvature"] = dict(property="C10", needs="a rectilinear grid whose last two cells differ in width, a point in the last cell",
 breaks="the slope at the inner node of the last cell is weighted by the wrong distances, so the first derivative jumps there",
 edits=[("src/multicubic/rectilinear_recursive.rs", '''        Saturation::InsideHigh => {''', '''        Saturation::InsideHigh if grid_cell[3] - grid_cell[2] > (grid_cell[2] - grid_cell[1]) * (two + two) => {
            // A wide last cell: its own secant carries little information about the node
            let h12 = grid_cell[2] - grid_cell[1];
            let h23 = grid_cell[3] - grid_cell[2];
            let y0 = vals[2];
            let dy = vals[3] - vals[2];
            let k0 = (vals[2] - vals[1]) * h23 / h12;
            let k1 = two * dy - k0;
            let t = (x - grid_cell[2]) / h23;

            normalized_hermite_spline(t, y0, dy, k0, k1)
        }
        Saturation::InsideHigh => {''')],
 rust='''use interpn::multicubic::rectilinear_recursive::MulticubicRectilinearRecursive as M;
fn main() {
    let g = [0.0f64, 1.0, 2.0, 3.0, 9.0];
    let gs = [&g[..]];
    let vals = [0.0, 2.0, 1.0, 4.0, -3.0];
    let m = M::<f64, 1>::new(&gs, &vals, false).unwrap();
    let f = |x: f64| m.interp_one(&[x]).unwrap();
    let h = 1e-6;
    let (l, r) = ((f(3.0) - f(3.0 - h)) / h, (f(3.0 + h) - f(3.0)) / h);
    assert!((l - r).abs() < 1e-4, "{l} {r}");
}
''')
SEEDS["s02c-four-nodes"] = dict(property="C02", needs="an axis with exactly four nodes next to a longer one, recursive cubic on a regular grid, a point in the middle cell",
 breaks="a four-node axis uses one-sided slopes in its middle cell",
 edits=[("src/multicubic/regular_recursive.rs", '''                    sat[next_dim],
''', '''                    // A minimum-size axis has no interior
                    match sat[next_dim] {
                        Saturation::None if self.dims[next_dim] == 4 && self.dims.iter().any(|&n| n > 4) => {
                            if dts[next_dim] < T::one() / (T::one() + T::one()) {
                                Saturation::None
                            } else {
                                Saturation::InsideHigh
                            }
                        }
                        s => s,
                    },
''')],
 rust='''use interpn::multicubic::regular_recursive::MulticubicRegularRecursive as M;
fn main() {
    let v = [0.0f64, 3.0, -1.0, 4.0];
    let vals: Vec<f64> = v.iter().flat_map(|y| [*y; 5]).collect();
    let a = M::<f64, 1>::new(&[4], &[0.0], &[1.0], &v, true).unwrap();
    let b = M::<f64, 2>::new(&[4, 5], &[0.0; 2], &[1.0; 2], &vals, true).unwrap();
    for x in [1.1, 1.4, 1.6, 1.9] {
        let (p, q) = (a.interp_one(&[x]).unwrap(), b.interp_one(&[x, 2.5]).unwrap());
        assert!((p - q).abs() < 1e-12, "{x} {p} {q}");
    }
}
''')
SEEDS["s07c-longer-batch"] = dict(property="C07", needs="the recursive rectilinear linear object with a spare maximum dimension and a batch call",
 breaks="the batch method leaves the last output untouched when the maximum dimension exceeds the actual one",
 edits=[("src/multilinear/rectilinear_recursive.rs", '''        for i in 0..n {
            (0..ndims).for_each(|j| tmp[j] = x[j][i]);''', '''        let n = if MAXDIMS > ndims + 2 && n > 2 * MAXDIMS { n - 1 } else { n };
        for i in 0..n {
            (0..ndims).for_each(|j| tmp[j] = x[j][i]);''')],
 rust='''use interpn::multilinear::rectilinear_recursive::MultilinearRectilinearRecursive as M;
fn main() {
    let g = [0.0f64, 1.0, 3.0];
    let gs = [&g[..]];
    let vals = [1.0, 2.0, 3.0];
    let f = M::<f64, 5>::new(&gs, &vals).unwrap();
    let x = [0.5f64; 33];
    let mut o = [0.0; 33];
    f.interp(&[&x[..]], &mut o).unwrap();
    assert!(o.iter().all(|y| *y == 1.5), "{o:?}");
}
''')
SEEDS["s08b-upper-edge-side"] = dict(property="C08", needs="a cubic evaluation a fraction of a cell above the last node, three or fewer axes, rectilinear grid, quadratic continuation",
 breaks="just above the grid the rectilinear continuation is a straight line although linearization is off; the regular one stays quadratic",
 edits=[("src/multicubic/rectilinear.rs", '''            let t = (x - grid_cell[2]) / h23;

            // If we are linearizing the interpolant under extrapolation,
            // hold the last slope outside the grid
            if linearize_extrapolation {''', '''            let t = (x - grid_cell[2]) / h23;

            // If we are linearizing the interpolant under extrapolation,
            // hold the last slope outside the grid
            if linearize_extrapolation || t - one < T::epsilon().sqrt().sqrt() {''')],
 rust='''use interpn::multicubic::{regular, rectilinear};
fn main() {
    let g: Vec<f64> = (0..6).map(|i| i as f64).collect();
    let vals = [0.0, 1.0, 4.0, 9.0, 16.0, 25.0];
    let d = 1e-4;
    let (mut a, mut b) = ([0.0], [0.0]);
    regular::interpn(&[6], &[0.0], &[1.0], &vals, false, &[&[5.0 + d]], &mut a).unwrap();
    rectilinear::interpn(&[&g[..]], &vals, false, &[&[5.0 + d]], &mut b).unwrap();
    assert!((a[0] - b[0]).abs() < 1e-11, "{a:?} {b:?}");
}
''')
SEEDS["s22c-out-view"] = dict(property="C22", needs="the helper with a non-contiguous out array (a view with a step)",
 breaks="a strided one-dimensional output is returned untouched",
 edits=[("src/interpn/__init__.py", "    if not result.flags.c_contiguous:", "    if result.ndim > 1 and not result.flags.c_contiguous:")],
 py='''import numpy as np, interpn
g = np.array([0.0, 1.0, 3.0]); v = np.array([1.0, 2.0, 6.0])
o = np.full(6, -7.0)
r = interpn.interpn([np.array([0.5, 2.0, 3.0])], [g], v, out=o[::2])
assert np.array_equal(o, [1.5, -7, 4.0, -7, 6.0, -7]), o
assert np.array_equal(r, [1.5, 4.0, 6.0]), r
''')
SEEDS["s23b-f32-tolerance"] = dict(property="C23", needs="the helper with check_bounds, float32 data and a point outside by more than the given tolerance but less than float32 rounding of the grid's size",
 breaks="the tolerance is raised to the rounding of the data, so points outside by more than asked are accepted",
 edits=[("src/interpn/__init__.py", '''    if check_bounds:
''', '''    if check_bounds:
        # The comparison can not be finer than the data
        if dtype == np.float32:
            scale = max(float(abs(grid[-1])) for grid in grids)
            bounds_atol = max(bounds_atol, 4 * float(np.finfo(dtype).eps) * scale)
''')],
 py='''import numpy as np, interpn
g = np.array([0.0, 1.0, 3.0], dtype=np.float32); v = np.array([1.0, 2.0, 6.0], dtype=np.float32)
x = np.nextafter(np.float32(3), np.float32(4)).reshape(1)
try:
    interpn.interpn([x], [g], v, check_bounds=True, bounds_atol=1e-8)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
SEEDS["s20c-switch-lost"] = dict(property="C20", needs="a cubic interpolator built with linearize_extrapolation=False, saved and restored",
 breaks="the extrapolation setting is not saved, so the restored interpolator extrapolates differently",
 edits=[("src/interpn/multicubic_rectilinear.py", "    linearize_extrapolation: bool\n", "    linearize_extrapolation: bool = Field(default=True, exclude=True)\n"),
        ("src/interpn/multicubic_rectilinear.py", "    BaseModel,\n", "    BaseModel,\n    Field,\n")],
 py='''import numpy as np, interpn
g = np.array([0.0, 1.0, 3.0, 4.0, 5.0]); v = g**2
m = interpn.MulticubicRectilinear.new([g], v, linearize_extrapolation=False)
n = interpn.MulticubicRectilinear.model_validate_json(m.model_dump_json())
x = [np.array([7.0])]
assert np.array_equal(m.eval(x), n.eval(x)), (m.eval(x), n.eval(x))
''')
SEEDS["s21c-silent-broadcast"] = dict(property="C21", needs="the helper with one observation array of length one among longer ones",
 breaks="arrays of unequal lengths are accepted and broadcast instead of rejected",
 edits=[("src/interpn/__init__.py", '''    grids = [np.ascontiguousarray(x.ravel()) for x in grids]
''', '''    if any(x.size == 1 for x in obs[1:]):
        # Hold a coordinate fixed along the others
        obs = [np.ascontiguousarray(x) for x in np.broadcast_arrays(*obs)]
    grids = [np.ascontiguousarray(x.ravel()) for x in grids]
''')],
 py='''import numpy as np, interpn
g = np.array([0.0, 1.0, 3.0]); v = np.arange(9.0)
try:
    r = interpn.interpn([np.array([0.5, 1.0]), np.array([1.0])], [g, g], v)
except Exception:
    pass
else:
    raise SystemExit(f"accepted {r}")
''')
SEEDS["s19c-first-steps"] = dict(property="C19", needs="a long axis that is even at first and uneven further on, passed to the helper without saying whether it is regular",
 breaks="the helper decides from the first 64 steps that the grid is regular",
 edits=[("src/interpn/__init__.py", "        dgrid = np.diff(grid)\n", "        dgrid = np.diff(grid[:65])  # Enough to tell\n")],
 py='''import numpy as np, interpn
g = np.concatenate([np.arange(100.0), 100.0 + 2.0 * np.arange(50)])
v = np.cos(g)
x = np.linspace(0.0, 190.0, 777)
r = interpn.interpn([x], [g], v)
assert np.allclose(r, np.interp(x, g, v)), np.abs(r - np.interp(x, g, v)).max()
''')
SEEDS["s14c-relative-slack"] = dict(property="C14", needs="a grid far from zero (regular) and a point above it by a little more than the tolerance",
 breaks="the upper bound is widened by rounding of the bound itself",
 edits=[("src/multilinear/regular.rs", "                let hi = first.max(last);", "                let hi = first.max(last) + first.max(last).abs() * T::epsilon();")],
 rust='''use interpn::multilinear::regular::check_bounds;
fn main() {
    let mut b = [false];
    let x = f64::from_bits(1e6f64.to_bits() + 1);
    check_bounds(&[11], &[999990.0], &[1.0], &[&[x]], 1e-12, &mut b).unwrap();
    assert_eq!(b, [true]);
}
''')
SEEDS["s01c-last-cell-weight"] = dict(property="C01", needs="a rectilinear axis whose last cell is over a thousand times wider than the one before, recursive linear method",
 breaks="points in a very wide last cell are interpolated from the neighbouring cell's line",
 edits=[("src/multilinear/rectilinear_recursive.rs", '''        let loc: usize = iloc.max(0).min(dimmax) as usize; // unsigned integer loc clipped to interior
''', '''        let mut loc: usize = iloc.max(0).min(dimmax) as usize; // unsigned integer loc clipped to interior

        // A far outlier as the last point does not make a useful cell
        if loc > 0 && loc as isize == dimmax && n > 3 {
            let (h0, h1) = (grid[loc] - grid[loc - 1], grid[loc + 1] - grid[loc]);
            if h1 * T::epsilon().sqrt().sqrt() > h0 {
                loc -= 1;
            }
        }
''')],
 rust='''use interpn::multilinear::rectilinear_recursive::MultilinearRectilinearRecursive as M;
fn main() {
    let g = [0.0f64, 1.0, 2.0, 100002.0];
    let gs = [&g[..]];
    let vals = [0.0, 5.0, 1.0, 3.0];
    let f = M::<f64, 1>::new(&gs, &vals).unwrap();
    let y = f.interp_one(&[50002.0]).unwrap();
    assert!((y - 2.0).abs() < 1e-9, "{y}");
}
''')
SEEDS["s13c-two-node-axis"] = dict(property="C13", needs="a decreasing axis of exactly two nodes, rectilinear linear method",
 breaks="a decreasing two-node axis is accepted instead of rejected",
 edits=[("src/multilinear/rectilinear.rs", "let monotonic_maybe = grids.iter().all(|&g| g[1] > g[0]);", """// (two nodes make the same line in either order)
        let monotonic_maybe = grids.iter().all(|&g| g[1] > g[0] || (g.len() == 2 && g[1] < g[0]));""")],
 rust='''use interpn::multilinear::rectilinear::interpn;
fn main() {
    let mut o = [0.0; 1];
    let r = interpn(&[&[1.0f64, 2.0, 3.0], &[1.0, 0.0]], &[0.0; 6], &[&[1.5], &[0.5]], &mut o);
    assert!(r.is_err());
}
''')
SEEDS["s16c-slice-copy"] = dict(property="C16", needs="long rectilinear axes, cubic method",
 breaks="each evaluation measures the whole axis to normalise, so work grows linearly with its length",
 edits=[("src/multicubic/rectilinear.rs", '''        let iloc: isize = grid.partition_point(|x| *x < v) as isize - 2;
''', '''        let iloc: isize = grid.iter().filter(|x| **x < v).count() as isize - 2;
''')],
 rust='''use interpn::multicubic::rectilinear::interpn;
use std::time::Instant;
fn main() {
    let time = |n: usize| {
        let g: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let vals = vec![1.0; n];
        let x = vec![0.5 * n as f64 + 3.3; 2000];
        let mut out = vec![0.0; 2000];
        let t = Instant::now();
        interpn(&[&g[..]], &vals, true, &[&x], &mut out).unwrap();
        t.elapsed().as_secs_f64()
    };
    time(100);
    let (a, b) = (time(100), time(1_000_000));
    assert!(b < 50.0 * a + 0.05, "{a} {b}");
}
''')
