//! The documented neighbourhood of every position on an axis.
use crate::iface::*;
use crate::num::{DD, Elt};
use crate::refm::{Side, axis_weights, locate};

/// One class of positions on an axis with the index range a result there may depend on.
pub struct Cls<T> {
    pub xs: Vec<T>,
    pub lo: usize,
    pub hi: usize,
}

pub fn hood(kind: Kind, n: usize, cell: usize) -> (usize, usize) {
    match kind {
        Kind::Linear => (cell, cell + 1),
        Kind::Cubic => {
            let s = cell.saturating_sub(1).min(n - 4);
            (s, s + 3)
        }
        Kind::Nearest => (cell, cell + 1),
    }
}

/// All classes of one axis.
pub fn classes<T: Elt>(kind: Kind, g: &[T], nodes: &[DD], exact: bool) -> Vec<Cls<T>> {
    let n = g.len();
    let mut v = vec![];
    let h0 = g[1] - g[0];
    let h1 = g[n - 1] - g[n - 2];
    let pick = |x: T| -> (usize, usize) {
        // nearest: exactly one node, or two when the point is within rounding of a tie
        let w = axis_weights(kind, false, nodes, x.dd(), T::EPS, exact);
        if w.ambiguous {
            let c = match locate(nodes, x.dd()) {
                Side::Below => 0,
                Side::Above => n - 2,
                Side::Cell(i) => i,
            };
            (c, c + 1)
        } else {
            (w.start, w.start)
        }
    };
    let mut add = |xs: Vec<T>, cell_lo: usize, cell_hi: usize| {
        if kind == Kind::Nearest {
            for x in xs {
                let (lo, hi) = pick(x);
                v.push(Cls { xs: vec![x], lo, hi });
            }
        } else {
            v.push(Cls { xs, lo: hood(kind, n, cell_lo).0, hi: hood(kind, n, cell_hi).1 });
        }
    };
    add(vec![g[0] - h0 * T::of(0.25), g[0] - h0 * T::of(3.0), g[0] - h0 * T::of(1000.0)], 0, 0);
    for i in 0..n - 1 {
        let w = g[i + 1] - g[i];
        let mut xs: Vec<T> = [0.125, 0.375, 0.5, 0.6875, 0.9375].iter().map(|f| g[i] + w * T::of(*f)).collect();
        // a float neighbour of a node belongs to its cell only when the nodes are exact
        if exact {
            xs.push(g[i].next_up_().next_up_().next_up_().next_up_());
        }
        if i + 1 < n {
            add(xs, i, i);
        }
        // on a node either adjacent cell is right
        add(vec![g[i], g[i].next_up_(), g[i].next_down_()], i.saturating_sub(1), i);
    }
    add(vec![g[n - 1], g[n - 1].next_up_(), g[n - 1].next_down_()], n - 2, n - 2);
    add(vec![g[n - 1] + h1 * T::of(0.25), g[n - 1] + h1 * T::of(3.0), g[n - 1] + h1 * T::of(1000.0)], n - 2, n - 2);
    v
}

