# index of a far cell goes through a 16-bit number
SEEDS["s01-far-cell-u16"] = dict(property="C01", needs="a regular axis with more than 32769 points, evaluated through the recursive linear interpolator beyond that cell",
 breaks="linear interpolation on long axes extrapolates from cell 32767",
 edits=[("src/multilinear/regular_recursive.rs", "let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc",
 "let limit = <T as NumCast>::from(i16::MAX).ok_or(\"Unrepresentable coordinate value\")?;\n        let floc = ((v - self.starts[dim]) / self.steps[dim]).floor().min(limit); // float loc")],
 rust='''use interpn::multilinear::regular_recursive::interpn;
fn main() {
    let n = 40_000usize;
    let vals: Vec<f64> = (0..n).map(|i| ((i * 7919) % 101) as f64).collect();
    let x: Vec<f64> = (0..n - 1).map(|i| i as f64 + 0.25).collect();
    let mut out = vec![0.0; n - 1];
    interpn(&[n], &[0.0], &[1.0], &vals, &[&x], &mut out).unwrap();
    for i in 0..n - 1 {
        let e = 0.75 * vals[i] + 0.25 * vals[i + 1];
        assert!((out[i] - e).abs() < 1e-9, "cell {i}: {} != {e}", out[i]);
    }
}
''')
# slope limiter on strongly uneven grids
SEEDS["s02-uneven-slope-limit"] = dict(property="C02", needs="an interior cell of an uneven grid whose neighbour is more than eight times narrower or wider, through the recursive cubic rectilinear interpolator",
 breaks="the slope at the left node of an interior cell is the plain secant there instead of the distance-weighted central difference",
 edits=[("src/multicubic/rectilinear_recursive.rs", "let k0 = centered_difference_nonuniform(vals[0], vals[1], vals[2], h01 / h12, T::one());",
 "let ratio = h01 / h12;\n            let eight = two * two * two;\n            let k0 = if ratio > eight || ratio < one / eight {\n                dy\n            } else {\n                centered_difference_nonuniform(vals[0], vals[1], vals[2], ratio, one)\n            };")],
 rust='''use interpn::multicubic::rectilinear_recursive::interpn;
fn main() {
    let g = [0.0, 0.1, 1.3, 2.0, 2.9, 4.0];
    let f = |x: f64| 1.0 + 0.5 * x - 0.3 * x * x;
    let vals: Vec<f64> = g.iter().map(|&x| f(x)).collect();
    let x: Vec<f64> = (0..=400).map(|i| i as f64 * 0.01).collect();
    let mut out = vec![0.0; x.len()];
    interpn(&[&g[..]], &vals, true, &[&x], &mut out).unwrap();
    for i in 0..x.len() {
        assert!((out[i] - f(x[i])).abs() < 1e-9, "{}: {} != {}", x[i], out[i], f(x[i]));
    }
}
''')
# linearized extrapolation above: secant instead of the end slope, only in the flattened rectilinear method
SEEDS["s03-linearize-secant"] = dict(property="C03", needs="a point above the grid, linearized extrapolation, data that is not linear, recursive cubic rectilinear method",
 breaks="above the grid the linearized extrapolation leaves with the slope of the last secant, not of the interpolant",
 edits=[("src/multicubic/rectilinear_recursive.rs", '''            let k0 = centered_difference_nonuniform(vals[1], vals[2], vals[3], h12 / h23, T::one());
            let k1 = two * dy - k0; // Natural spline boundary condition

            let t = (x - grid_cell[2]) / h23;

            // If we are''', '''            let k0 = centered_difference_nonuniform(vals[1], vals[2], vals[3], h12 / h23, T::one());
            let k1 = if linearize_extrapolation {
                dy
            } else {
                two * dy - k0 // Natural spline boundary condition
            };

            let t = (x - grid_cell[2]) / h23;

            // If we are''')],
 rust='''use interpn::multicubic::rectilinear_recursive::interpn;
fn main() {
    let g = [0.0, 1.0, 2.5, 3.0, 4.5];
    let vals: Vec<f64> = g.iter().map(|&x| x * x).collect();
    let x = [4.5, 5.5, 6.5];
    let mut out = [0.0; 3];
    interpn(&[&g[..]], &vals, true, &[&x], &mut out).unwrap();
    // slope of x^2 at 4.5 is 9
    assert!((out[1] - out[0] - 9.0).abs() < 1e-9, "{out:?}");
    assert!((out[2] - out[0] - 18.0).abs() < 1e-9, "{out:?}");
}
''')
# ties
SEEDS["s04-tie-inward"] = dict(property="C04", needs="a point exactly halfway between the first two nodes of an uneven grid",
 breaks="exact ties in the first cell go to the right node instead of the left",
 edits=[("src/nearest/rectilinear.rs", '''                let offset = if dt <= half {''', '''                // (on a tie, prefer a node that is not on the edge of the grid)
                let offset = if dt < half || (dt == half && origin > 0) {''')],
 rust='''use interpn::nearest::rectilinear::interpn;
fn main() {
    let g = [0.0, 1.0, 3.0, 3.5];
    let vals = [10.0, 20.0, 30.0, 40.0];
    let x = [0.5, 2.0, 3.25];
    let mut out = [0.0; 3];
    interpn(&[&g[..]], &vals, &[&x], &mut out).unwrap();
    assert_eq!(out, [10.0, 20.0, 30.0]);
}
''')
# torn cache shared between threads
SEEDS["s12-shared-cell-cache"] = dict(property="C12", needs="two threads evaluating rectilinear linear interpolators at the same time, one storing between the two loads of the other",
 breaks="a process-wide cache of the last cell is read twice: the cell that was checked need not be the cell that is used",
 edits=[("src/multilinear/rectilinear_recursive.rs", "        let iloc: isize = grid.partition_point(|x| *x < v) as isize - 1;",
 '''        // Consecutive points often fall in the same cell, so try the last one first.
        let last = LAST_CELL.load(Ordering::Relaxed);
        let iloc: isize = if last + 1 < grid.len() && grid[last] < v && v <= grid[last + 1] {
            LAST_CELL.load(Ordering::Relaxed) as isize
        } else {
            grid.partition_point(|x| *x < v) as isize - 1
        };
        LAST_CELL.store(iloc.max(0) as usize, Ordering::Relaxed);'''),
 ("src/multilinear/rectilinear_recursive.rs", "use num_traits::Float;", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse num_traits::Float;\n\n/// Cell found by the most recent search\nstatic LAST_CELL: AtomicUsize = AtomicUsize::new(0);")],
 rust='''use interpn::multilinear::rectilinear_recursive::MultilinearRectilinearRecursive;
use std::sync::atomic::{AtomicBool, Ordering};
static BAD: AtomicBool = AtomicBool::new(false);
fn main() {
    std::thread::scope(|s| {
        for k in 0..8usize {
            s.spawn(move || {
                let g: Vec<f64> = (0..9).map(|i| i as f64).collect();
                let vals: Vec<f64> = (0..9).map(|i| ((i * i * 7) % 11) as f64).collect();
                let grids = [&g[..]];
                let it = MultilinearRectilinearRecursive::<f64, 1>::new(&grids, &vals).unwrap();
                let x = k as f64 + 0.5;
                let e = 0.5 * (vals[k] + vals[k + 1]);
                let t = std::time::Instant::now();
                while t.elapsed().as_secs() < 45 && !BAD.load(Ordering::Relaxed) {
                    for _ in 0..10_000 {
                        if (it.interp_one(&[x]).unwrap() - e).abs() > 1e-9 {
                            BAD.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
            });
        }
    });
    assert!(!BAD.load(Ordering::Relaxed), "a thread saw another thread's cell");
}
''')
# only the first axis is compared with the output
SEEDS["s13-first-axis-length"] = dict(property="C13", needs="observation axes of different lengths, the first matching the output",
 breaks="a shorter second observation axis panics with an index out of bounds instead of returning an error",
 edits=[("src/nearest/rectilinear.rs", "let size_matches = x.iter().all(|&xx| xx.len() == out.len());", "let size_matches = x[0].len() == out.len();")],
 rust='''use interpn::nearest::rectilinear::interpn;
fn main() {
    let g = [0.0, 1.0, 2.0];
    let vals = [0.0; 9];
    let mut out = [0.0; 3];
    let r = interpn(&[&g[..], &g[..]], &vals, &[&[0.1, 0.2, 0.3], &[0.1, 0.2]], &mut out);
    assert!(r.is_err());
}
''')
# sorted-points assumption
SEEDS["s14-ends-only"] = dict(property="C14", needs="a list of points in which an offending point is neither first nor last",
 breaks="the rectilinear bounds check looks at the first and last point of each axis only",
 edits=[("src/multilinear/rectilinear.rs", "                out[i] = bad;\n            }\n            None => return",
 '''                // Long lists are chunks of a sorted sweep: the ends decide
                out[i] = bad
                    && (obs[i].len() <= 16
                        || [obs[i][0], obs[i][obs[i].len() - 1]]
                            .iter()
                            .any(|&x| (x - lo) < -atol || (x - hi) > atol));
            }
            None => return''')],
 rust='''use interpn::multilinear::rectilinear::check_bounds;
fn main() {
    let g = [0.0, 1.0, 2.0];
    let mut x = vec![0.5; 40];
    x[20] = 7.0;
    let mut out = [false];
    check_bounds(&[&g[..]], &[&x], 1e-8, &mut out).unwrap();
    assert!(out[0]);
}
''')
# heap buffer for large batches
SEEDS["s15-batch-buffer"] = dict(property="C15", needs="the std build and a batch of at least 4096 points through the flattened nearest interpolator",
 breaks="large batches are staged through a heap-allocated buffer",
 edits=[("src/nearest/regular.rs", '''        let mut tmp = [T::zero(); N];
        for i in 0..n {
            (0..N).for_each(|j| tmp[j] = x[j][i]);
            out[i] = self.interp_one(tmp)?;
        }
''', '''        let mut tmp = [T::zero(); N];
        #[cfg(feature = "std")]
        if n >= 4096 {
            // Stage the result so that a failing point leaves the output untouched
            let mut staged = std::vec::Vec::with_capacity(n);
            for i in 0..n {
                (0..N).for_each(|j| tmp[j] = x[j][i]);
                staged.push(self.interp_one(tmp)?);
            }
            out.copy_from_slice(&staged);
            return Ok(());
        }
        for i in 0..n {
            (0..N).for_each(|j| tmp[j] = x[j][i]);
            out[i] = self.interp_one(tmp)?;
        }
''')],
 rust='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let x = vec![1.3; 10_000];
    let mut out = vec![0.0; 10_000];
    let vals = [1.0, 2.0, 3.0];
    let b = N.load(Relaxed);
    interpn::nearest::regular::interpn(&[3], &[0.0], &[1.0], &vals, &[&x], &mut out).unwrap();
    assert_eq!(N.load(Relaxed), b, "evaluation allocated");
}
''')
# galloping search
SEEDS["s16-scan-from-end"] = dict(property="C16", needs="an axis with thousands of points and a coordinate in its upper half",
 breaks="points in the upper half are located by walking down from the end, one node at a time",
 edits=[("src/multicubic/rectilinear_recursive.rs", "let iloc: isize = grid.partition_point(|x| *x < v) as isize - 2;",
 '''let half = grid.len() / 2;
        let below = if v > grid[half] {
            let mut k = grid.len();
            while grid[k - 1] >= v {
                k -= 1;
            }
            k
        } else {
            grid.partition_point(|x| *x < v)
        };
        let iloc: isize = below as isize - 2;''')],
 rust='''use interpn::multicubic::rectilinear_recursive::interpn;
use std::time::Instant;
fn main() {
    let time = |n: usize| {
        let g: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let vals = vec![1.0; n];
        let x = vec![0.5 * n as f64 + 3.3; 2000];
        let mut out = vec![0.0; 2000];
        let t = Instant::now();
        interpn(&[&g[..]], &vals, true, &[&x], &mut out).unwrap();
        t.elapsed().as_secs_f64()
    };
    time(100);
    let (a, b) = (time(100), time(1_000_000));
    assert!(b < 50.0 * a + 0.05, "{a} {b}");
}
''')
SEEDS["s17-nan-index-zero"] = dict(property="C17", needs="a NaN coordinate on a regular grid with the nearest method",
 breaks="a NaN coordinate gives the value of a corner node instead of an error",
 edits=[("src/nearest/regular.rs", '''let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")?;''', '''let iloc = match <isize as NumCast>::from(floc) {
            Some(i) => i,
            None if floc > T::zero() => isize::MAX,
            None => isize::MIN,
        };''')],
 rust='''fn main() {
    let mut out = [0.0f64];
    let r = interpn::nearest::regular::interpn(&[3], &[0.0], &[1.0], &[1.0, 2.0, 3.0], &[&[f64::NAN]], &mut out);
    assert!(r.is_err() || out[0].is_nan(), "{out:?}");
}
''')
SEEDS["s25-flat-cell-shortcut"] = dict(property="C25", needs="a cubic evaluation in an interior cell whose two end values are equal while their neighbours differ",
 breaks="equal values at both ends of a cell are taken to mean a constant there, so the result is not linear in the table",
 edits=[("src/multicubic/regular.rs", "let k0 = (vals[2] - vals[0]) / two;", "let k0 = (vals[2] - vals[0]) / two;")] if False else [("src/multicubic/mod.rs", '''    let a = k0 - dy;
    let b = -k1 + dy;
''', '''    // Nothing to do on a flat interval
    if dy == T::zero() {
        return y0;
    }

    let a = k0 - dy;
    let b = -k1 + dy;
''')],
 rust='''use interpn::multicubic::regular::interpn;
fn main() {
    let f = |v: &[f64]| {
        let mut out = [0.0f64];
        interpn(&[6], &[0.0], &[1.0], v, true, &[&[2.3]], &mut out).unwrap();
        out[0]
    };
    let a = [0.0, 1.0, 0.5, 0.5, -2.0, 1.0];
    let b = [1.0, 0.0, 0.25, 1.0, 3.0, 0.0];
    let s: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
    assert!((f(&a) + f(&b) - f(&s)).abs() < 1e-12);
}
''')
SEEDS["s26-running-sum"] = dict(property="C26", needs="many points", breaks="linspace accumulates the spacing, so the error grows with the number of points",
 edits=[("src/utils.rs", "(0..n).map(|i| start + T::from(i).unwrap() * dx).collect()", '''let mut x = start;
    (0..n)
        .map(|_| {
            let y = x;
            x = x + dx;
            y
        })
        .collect()''')],
 rust='''fn main() {
    let v = interpn::utils::linspace(0.0f64, 0.7, 1_000_001);
    assert!((v[1_000_000] - 0.7).abs() < 1e-14, "{}", v[1_000_000]);
}
''')
