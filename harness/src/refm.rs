//! The reference model: per-axis weights straight from the definitions, in double-double.
use crate::iface::Kind;
use crate::num::DD;

/// Sparse weights on one axis: value = sum_k w[k] * v[start + k].
#[derive(Clone, Debug)]
pub struct AxisW {
    pub start: usize,
    pub w: Vec<DD>,
    /// Bound on the norm of the rounding error of the weights, in units of the element's eps.
    pub err: f64,
    /// Ambiguous (nearest: within rounding of a tie): the caller must not compare.
    pub ambiguous: bool,
}
impl AxisW {
    pub fn norm(&self) -> f64 {
        self.w.iter().map(|w| w.hi.abs()).sum()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Below,
    Cell(usize),
    Above,
}

/// Which cell (or side) a coordinate falls in. On a node: the cell to its left, if any
/// (irrelevant for the value of continuous methods).
pub fn locate(nodes: &[DD], x: DD) -> Side {
    let n = nodes.len();
    if x < nodes[0] {
        return Side::Below;
    }
    if x > nodes[n - 1] {
        return Side::Above;
    }
    // number of nodes strictly below x; on a node, the cell to its left (cell 0 on the first node)
    let k = nodes.partition_point(|g| *g < x);
    Side::Cell(k.saturating_sub(1).min(n - 2))
}

fn d(x: f64) -> DD {
    DD::from_f64(x)
}

/// `eps`: element eps, only used to decide ambiguity of nearest.
/// `exact`: node coordinates and arithmetic are exact (dyadic), so ties are decided exactly.
pub fn axis_weights(kind: Kind, lin: bool, nodes: &[DD], x: DD, eps: f64, exact: bool) -> AxisW {
    let n = nodes.len();
    let side = locate(nodes, x);
    let big = x.hi.abs().max(nodes[0].hi.abs()).max(nodes[n - 1].hi.abs());
    let cell = match side {
        Side::Below => 0,
        Side::Above => n - 2,
        Side::Cell(i) => i,
    };
    let h = nodes[cell + 1] - nodes[cell];
    let t = (x - nodes[cell]) / h;
    let tf = t.hi.abs();
    match kind {
        Kind::Nearest => {
            let half = d(0.5);
            let (mut k, mut amb) = (cell, false);
            match side {
                Side::Below => {}
                Side::Above => k = n - 1,
                Side::Cell(_) => {
                    if t > half {
                        k = cell + 1;
                    }
                    let gap = ((t - half).hi * h.hi).abs();
                    amb = !exact && gap <= 8.0 * eps * big;
                }
            }
            AxisW { start: k, w: vec![DD::ONE], err: 0.0, ambiguous: amb }
        }
        Kind::Linear => {
            // node coordinates are rounded (regular grids), and x - x0 has conditioning big/h
            let err = (2.0 + tf) * 4.0 + 4.0 * big / h.hi;
            AxisW { start: cell, w: vec![DD::ONE - t, t], err, ambiguous: false }
        }
        Kind::Cubic => {
            // slope at node j as weights on (j-1, j, j+1); ends by the natural condition
            let slope = |j: usize| -> (usize, Vec<DD>) {
                let hl = nodes[j] - nodes[j - 1];
                let hr = nodes[j + 1] - nodes[j];
                // distance-weighted mean of backward and forward difference: closer one counts more
                let s = hl + hr;
                let (a, b) = (hr / s, hl / s); // weights of backward, forward difference
                (j - 1, vec![-(a / hl), a / hl - b / hr, b / hr])
            };
            let st = if n == 4 { 0 } else { cell.saturating_sub(1).min(n - 4) };
            let mut m0 = vec![DD::ZERO; 4]; // slope at node `cell`
            let mut m1 = vec![DD::ZERO; 4]; // slope at node `cell+1`
            let secant = {
                let mut v = vec![DD::ZERO; 4];
                v[cell - st] = -(DD::ONE / h);
                v[cell + 1 - st] = DD::ONE / h;
                v
            };
            let fill = |m: &mut Vec<DD>, j: usize| {
                let (s, w) = slope(j);
                for k in 0..3 {
                    m[s + k - st] = w[k];
                }
            };
            if cell == 0 {
                fill(&mut m1, 1);
                for k in 0..4 {
                    m0[k] = d(2.0) * secant[k] - m1[k];
                }
            } else if cell == n - 2 {
                fill(&mut m0, n - 2);
                for k in 0..4 {
                    m1[k] = d(2.0) * secant[k] - m0[k];
                }
            } else {
                fill(&mut m0, cell);
                fill(&mut m1, cell + 1);
            }
            let mut w = vec![DD::ZERO; 4];
            let outside = !matches!(side, Side::Cell(_));
            if outside && lin {
                let (node, m) = if side == Side::Below { (0, &m0) } else { (n - 1, &m1) };
                w[node - st] = DD::ONE;
                let dx = x - nodes[node];
                for k in 0..4 {
                    w[k] = w[k] + dx * m[k];
                }
            } else {
                // Hermite form on the cell; in edge cells it is the quadratic, also outside
                let t2 = t * t;
                let t3 = t2 * t;
                let (h00, h10) = (d(2.0) * t3 - d(3.0) * t2 + DD::ONE, t3 - d(2.0) * t2 + t);
                let (h01, h11) = (d(3.0) * t2 - d(2.0) * t3, t3 - t2);
                w[cell - st] = w[cell - st] + h00;
                w[cell + 1 - st] = w[cell + 1 - st] + h01;
                for k in 0..4 {
                    w[k] = w[k] + h * (h10 * m0[k] + h11 * m1[k]);
                }
            }
            // error envelope: |slopes|*h are bounded by the spacing ratios
            let mut r: f64 = 1.0;
            for k in st..st + 3 {
                let hk = (nodes[k + 1] - nodes[k]).hi;
                r = r.max(h.hi / hk).max(1.0);
            }
            let p = if outside && lin { 1.0 + tf } else { (1.0 + tf) * (1.0 + tf) * if outside || tf > 1.5 { 1.0 + tf } else { 1.0 } };
            let hmin = (st..st + 3).map(|k| (nodes[k + 1] - nodes[k]).hi).fold(f64::INFINITY, f64::min);
            let dp = if outside && lin { 1.0 } else { 1.0 + tf };
            let err = p * (1.0 + r) * (6.0 + 3.0 * big / hmin) + dp * (1.0 + r) * 4.0 * big / h.hi;
            AxisW { start: st, w, err, ambiguous: false }
        }
    }
}

/// Reference results over a product of positions, with per-result tolerance in units of eps.
pub struct Ref {
    pub val: Vec<f64>,
    pub lo: Vec<f64>,
    /// error bound / eps
    pub tol: Vec<f64>,
    pub amb: Vec<bool>,
}

/// Contract a C-ordered table with per-axis position lists (C-ordered product of positions).
pub fn product(dims: &[usize], vals: &[DD], axes: &[Vec<AxisW>]) -> Ref {
    let nd = dims.len();
    // value and absolute-value tables, contracted one axis at a time from the last
    let mut cur: Vec<DD> = vals.to_vec();
    let mut shape: Vec<usize> = dims.to_vec();
    let maxv = vals.iter().filter(|v| v.hi.is_finite()).map(|v| v.hi.abs()).fold(0.0, f64::max);
    for a in (0..nd).rev() {
        let outer: usize = shape[..a].iter().product();
        let inner: usize = shape[a + 1..].iter().product();
        let n = shape[a];
        let p = axes[a].len();
        let mut nxt = vec![DD::ZERO; outer * p * inner];
        for o in 0..outer {
            for (pi, aw) in axes[a].iter().enumerate() {
                let dst = &mut nxt[(o * p + pi) * inner..(o * p + pi + 1) * inner];
                for (k, w) in aw.w.iter().enumerate() {
                    if w.hi == 0.0 && w.lo == 0.0 {
                        continue;
                    }
                    let src = &cur[(o * n + aw.start + k) * inner..(o * n + aw.start + k + 1) * inner];
                    for i in 0..inner {
                        dst[i] = dst[i] + *w * src[i];
                    }
                }
            }
        }
        shape[a] = p;
        cur = nxt;
    }
    // error: max|v| * prod(norms) * sum(err_d / norm_d)
    let total: usize = shape.iter().product();
    let mut tol = vec![0.0; total];
    let mut amb = vec![false; total];
    let mut idx = vec![0usize; nd];
    for (i, t) in tol.iter_mut().enumerate() {
        let mut pr = 1.0;
        let mut sm = 2.0;
        for a in 0..nd {
            let aw = &axes[a][idx[a]];
            let nm = aw.norm().max(1e-300);
            pr *= nm.max(1.0);
            sm += aw.err / nm.max(1.0);
            amb[i] |= aw.ambiguous;
        }
        *t = maxv * pr * sm;
        for a in (0..nd).rev() {
            idx[a] += 1;
            if idx[a] < shape[a] {
                break;
            }
            idx[a] = 0;
        }
    }
    Ref { val: cur.iter().map(|x| x.hi).collect(), lo: cur.iter().map(|x| x.lo).collect(), tol, amb }
}
