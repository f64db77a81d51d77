//! Uniform access to the one-dimensional interpolators, and their reference rules.
use crate::num::{DD, Elt};
use crate::refm::{Side, locate};
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Grid1D, Interp1D, RectilinearGrid1D, RegularGrid1D};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rule {
    Linear,
    Hold,
    Left,
    Right,
    Nearest,
}
impl Rule {
    pub const ALL: [Rule; 5] = [Rule::Linear, Rule::Hold, Rule::Left, Rule::Right, Rule::Nearest];
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum How {
    One,
    Batch,
    Alloc,
}

#[derive(Clone, Debug)]
pub enum G1<'a, T> {
    Reg(T, T),
    Rect(&'a [T]),
}

fn go<'a, T: Elt, G: Grid1D<'a, T>, I: Interp1D<'a, T, G>>(it: &I, how: How, locs: &[T], out: &mut [T]) -> Result<(), &'static str> {
    match how {
        How::Batch => it.eval(locs, out),
        How::One => {
            for (o, l) in out.iter_mut().zip(locs) {
                *o = it.eval_one(*l)?;
            }
            Ok(())
        }
        #[cfg(not(feature = "std"))]
        How::Alloc => Err("harness: not in the no-std build"),
        #[cfg(feature = "std")]
        How::Alloc => {
            let v = it.eval_alloc(locs)?;
            if v.len() != out.len() {
                return Err("harness: wrong length");
            }
            out.copy_from_slice(&v);
            Ok(())
        }
    }
}

pub fn eval1<T: Elt>(g: &G1<T>, vals: &[T], rule: Rule, how: How, locs: &[T], out: &mut [T]) -> Result<(), &'static str> {
    macro_rules! rules {
        ($grid:expr) => {
            match rule {
                Rule::Linear => go(&Linear1D::new($grid), how, locs, out),
                Rule::Hold => go(&LinearHoldLast1D::new($grid), how, locs, out),
                Rule::Left => go(&Left1D::new($grid), how, locs, out),
                Rule::Right => go(&Right1D::new($grid), how, locs, out),
                Rule::Nearest => go(&Nearest1D::new($grid), how, locs, out),
            }
        };
    }
    match g {
        G1::Reg(s, h) => {
            let g = RegularGrid1D::new(*s, *h, vals)?;
            rules!(g)
        }
        G1::Rect(x) => {
            let g = RectilinearGrid1D::new(x, vals)?;
            rules!(g)
        }
    }
}

/// (value, error bound in eps (0: exact), ambiguous)
pub fn ref1(rule: Rule, nodes: &[DD], vals: &[DD], my: f64, x: DD, eps: f64, exact_nodes: bool, exact_mid: bool) -> (DD, f64, bool) {
    let n = nodes.len();
    let side = locate(nodes, x);
    let big = x.hi.abs().max(nodes[0].hi.abs()).max(nodes[n - 1].hi.abs());
    let near = 4.0 * eps * big;
    let cell = match side {
        Side::Below => 0,
        Side::Above => n - 2,
        Side::Cell(i) => i,
    };
    let (x0, x1, y0, y1) = (nodes[cell], nodes[cell + 1], vals[cell], vals[cell + 1]);
    let h = x1 - x0;
    let t = (x - x0) / h;
    // my: largest |value|
    let gbig = nodes[0].hi.abs().max(nodes[n - 1].hi.abs());
    let lin = y0 + t * (y1 - y0);
    let err = my * ((2.0 + t.hi.abs()) * 6.0 + 4.0 * big / h.hi + 4.0 * t.hi.abs() * gbig / h.hi) + my * 4.0;
    // on a regular grid the cell index is computed in floating point, so a point within rounding
    // of a node is judged only if it is exactly that node (of an exactly representable grid)
    let close = |a: DD| ((x - a).hi.abs() <= near) && !exact_nodes && !(exact_mid && x == a);
    let near_node = (cell.saturating_sub(1)..(cell + 3).min(n)).any(|k| close(nodes[k]));
    match rule {
        Rule::Linear => (lin, err, false),
        Rule::Hold => match side {
            Side::Below => (vals[0], err, false),
            Side::Above => (vals[n - 1], err, false),
            _ => (lin, err, false),
        },
        Rule::Left => {
            let v = match side {
                Side::Below => vals[0],
                Side::Above => vals[n - 1],
                _ => if x >= x1 { y1 } else { y0 },
            };
            (v, 0.0, near_node)
        }
        Rule::Right => {
            let v = match side {
                Side::Below => vals[0],
                Side::Above => vals[n - 1],
                _ => if x <= x0 { y0 } else { y1 },
            };
            (v, 0.0, near_node)
        }
        Rule::Nearest => {
            let v = match side {
                Side::Below => vals[0],
                Side::Above => vals[n - 1],
                _ => if (x - x0) <= (x1 - x) { y0 } else { y1 },
            };
            let gap = ((x - x0) - (x1 - x)).hi.abs();
            // only an exact tie on an exact grid is judged this close to the midpoint: anything
            // else is within the rounding of the two distances
            let tie = exact_mid && gap == 0.0;
            (v, 0.0, !tie && gap <= 4.0 * near && matches!(side, Side::Cell(_)))
        }
    }
}
