//! Alphabets: grids, positions, tables, orders.
use crate::iface::{Kind, Problem};
use crate::num::{DD, Elt};
use crate::report::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Spacing {
    /// start/step exactly representable, small: node coordinates exact, ties exact
    EvenDyadic,
    /// start/step not dyadic (0.3-ish, 0.1-ish)
    EvenGeneric,
    /// uneven, exactly representable
    UnevenDyadic,
    /// uneven, not dyadic, ratios up to about 20
    UnevenGeneric,
    /// almost even: spacings differ by 2^-4 to 2^-40 of a cell (not in `ALL`)
    NearEven,
    /// one cell (`.0`, counted from the end) 2^`.1` times as wide as the others, which are uneven (not in `ALL`)
    Odd(u8, i8),
    /// the cells whose bit is set are this many times as wide as the others (not in `ALL`)
    Bits(u8, u8),
}
impl Spacing {
    pub const ALL: [Spacing; 4] = [Spacing::EvenDyadic, Spacing::UnevenDyadic, Spacing::EvenGeneric, Spacing::UnevenGeneric];
    pub fn even(self) -> bool {
        matches!(self, Spacing::EvenDyadic | Spacing::EvenGeneric)
    }
    pub fn exact(self) -> bool {
        matches!(self, Spacing::EvenDyadic | Spacing::UnevenDyadic)
    }
}

/// (start, step, nodes) of one axis. `axis` varies the numbers between axes.
pub fn axis<T: Elt>(sp: Spacing, n: usize, axis: usize) -> (T, T, Vec<T>) {
    match sp {
        Spacing::EvenDyadic => {
            let start = [-1.5, 2.0, 0.0, -8.0, 0.25, -0.75, 5.0, 1.0][axis % 8];
            let step = [0.5, 1.0, 2.0, 0.25, 4.0, 0.125, 1.0, 0.5][axis % 8];
            let (s, h) = (T::of(start), T::of(step));
            (s, h, (0..n).map(|i| T::of(start + step * i as f64)).collect())
        }
        Spacing::EvenGeneric => {
            let start = [0.3, -1.7, 0.0, 10.1, -0.9, 3.3, -6.1, 0.7][axis % 8];
            let step = [0.1, 0.7, 1.0 / 3.0, 1.9, 0.05, 2.3, 0.6, 0.17][axis % 8];
            let (s, h) = (T::of(start), T::of(step));
            (s, h, (0..n).map(|i| s + h * T::of(i as f64)).collect())
        }
        Spacing::UnevenDyadic => {
            let incs = [0.5, 2.0, 0.25, 1.0, 4.0, 0.5, 1.5, 0.75];
            let mut x = [-2.0, 0.5, -4.25, 1.0, 0.0, -1.0, 3.0, -0.5][axis % 8];
            let mut v = vec![];
            for i in 0..n {
                v.push(T::of(x));
                x += incs[(i * 3 + axis * 5) % 8];
            }
            (v[0], v[1] - v[0], v)
        }
        Spacing::NearEven => {
            let k = [-20, 12, -6, 9, -16, 30, -4, 24, -13, 40, 7];
            let h = [1.0, 0.5, 3.0, 0.1, 20.0, 1.0, 0.7, 2.0][axis % 8];
            let mut x = [0.0, -1.5, 4.0, -0.3, 1.0, -6.0, 0.1, 2.0][axis % 8];
            let mut v = vec![];
            for i in 0..n {
                v.push(T::of(x));
                let e: i32 = k[(i + axis * 3) % 11];
                x += h * (1.0 + e.signum() as f64 * 2f64.powi(-e.abs()));
            }
            (v[0], v[1] - v[0], v)
        }
        Spacing::Odd(c, e) => {
            let e = if T::EPS > 1e-10 { e.clamp(-14, 14) } else { e };
            let mut x = [0.1, -1.3, 0.7, -0.2, 1.1, -0.7, 0.9, 0.2][axis % 8];
            let mut v = vec![];
            for i in 0..n {
                v.push(T::of(x));
                let h = [1.0, 0.75, 1.3, 0.9][(i + axis) % 4];
                x += if i + 2 + c as usize == n { (h * 2f64.powi(e as i32)).max(16.0 * T::EPS * x.abs()) } else { h };
            }
            (v[0], v[1] - v[0], v)
        }
        Spacing::Bits(b, w) => {
            let mut x = [0.1, -1.3, 0.7, -0.2, 1.1, -0.7, 0.9, 0.2][axis % 8];
            let mut v = vec![];
            for i in 0..n {
                v.push(T::of(x));
                x += [0.3, 0.31, 0.28][i % 3] * if b >> (i % 8) & 1 == 1 { w as f64 } else { 1.0 };
            }
            (v[0], v[1] - v[0], v)
        }
        Spacing::UnevenGeneric => {
            let incs = [0.37, 1.91, 0.083, 0.61, 1.13, 0.29, 2.17, 0.7];
            let mut x = [0.1, -3.3, 1.7, -0.2, 6.1, -7.7, 0.9, 2.2][axis % 8];
            let mut v = vec![];
            for i in 0..n {
                v.push(T::of(x));
                x += incs[(i * 3 + axis * 5) % 8];
            }
            (v[0], v[1] - v[0], v)
        }
    }
}

pub fn dense<T: Elt>(n: usize, salt: u64) -> Vec<T> {
    (0..n)
        .map(|i| {
            let k = (mix(i as u64 ^ (salt << 40)) % 2047) as f64 - 1023.0;
            T::of(k / 1024.0)
        })
        .collect()
}

/// Values repeated along every axis in runs of two (the first run of length `2 - off`): flat cells.
pub fn plateau<T: Elt>(dims: &[usize], off: usize) -> Vec<T> {
    let tot: usize = dims.iter().product();
    (0..tot)
        .map(|i| {
            let (mut r, mut h) = (i, 17u64);
            for &n in dims.iter().rev() {
                h = mix(h ^ (((r % n + off) / 2) as u64 + 1));
                r /= n;
            }
            T::of(((h % 2047) as f64 - 1023.0) / 1024.0)
        })
        .collect()
}

pub fn problem<T: Elt>(kind: Kind, regular: bool, lin: bool, sp: &[Spacing], dims: &[usize], salt: u64) -> Problem<T> {
    let mut p = Problem { kind, regular, lin, dims: dims.to_vec(), starts: vec![], steps: vec![], grids: vec![], vals: vec![] };
    for (a, (&n, &s)) in dims.iter().zip(sp.iter()).enumerate() {
        let (st, h, g) = axis::<T>(s, n, a);
        p.starts.push(st);
        p.steps.push(h);
        p.grids.push(g);
    }
    p.vals = dense(dims.iter().product(), salt);
    p
}

/// Exact node coordinates as the reference sees them.
pub fn ref_nodes<T: Elt>(p: &Problem<T>, a: usize) -> Vec<DD> {
    if p.regular {
        (0..p.dims[a]).map(|i| p.starts[a].dd() + p.steps[a].dd() * DD::from_f64(i as f64)).collect()
    } else {
        p.grids[a].iter().map(|x| x.dd()).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    /// every node, its floating-point neighbours, several fractions of every cell, near and far outside
    Full,
    /// every node, two fractions of every cell, outside near and far
    Mid,
    /// one point per case: below, first cell, interior, last cell, above
    Core,
    /// inside the grid only (nodes and fractions)
    Inside,
    /// below / above / one inside
    Sides,
    /// graded distances (2^-5 .. 2^-48 of a cell) on both sides of every node and midpoint, and
    /// outside from 2^-48 cells to 1e10 spans
    Fine,
}

const GRADES: [i32; 12] = [5, 8, 10, 13, 16, 20, 24, 30, 34, 40, 44, 48];

/// Position classes along one axis.
pub fn positions<T: Elt>(nodes: &[T], lv: Level) -> Vec<T> {
    let n = nodes.len();
    let h0 = nodes[1] - nodes[0];
    let h1 = nodes[n - 1] - nodes[n - 2];
    let fr = |i: usize, f: f64| nodes[i] + (nodes[i + 1] - nodes[i]) * T::of(f);
    let lo = |k: f64| nodes[0] - h0 * T::of(k);
    let hi = |k: f64| nodes[n - 1] + h1 * T::of(k);
    let mut v = vec![];
    match lv {
        Level::Full => {
            v.extend([lo(100.0), lo(7.3), lo(1.0), lo(0.25), nodes[0].next_down_()]);
            for i in 0..n {
                v.push(nodes[i]);
                v.push(nodes[i].next_up_());
                if i + 1 < n {
                    v.extend([fr(i, 0.25), fr(i, 0.5), fr(i, 0.8125), fr(i, 1.0 / 3.0)]);
                    v.push(nodes[i + 1].next_down_());
                }
            }
            v.extend([hi(0.25), hi(1.0), hi(7.3), hi(100.0)]);
        }
        Level::Mid => {
            v.extend([lo(3.0), lo(0.25)]);
            for i in 0..n {
                v.push(nodes[i]);
                if i + 1 < n {
                    v.extend([fr(i, 0.25), fr(i, 0.625)]);
                }
            }
            v.extend([hi(0.25), hi(3.0)]);
        }
        Level::Core => {
            v.push(lo(0.75));
            v.push(fr(0, 0.375));
            if n > 3 {
                v.push(fr((n - 1) / 2, 0.625));
            }
            if n > 2 {
                v.push(fr(n - 2, 0.25));
            }
            v.push(hi(1.25));
        }
        Level::Inside => {
            for i in 0..n {
                v.push(nodes[i]);
                if i + 1 < n {
                    v.extend([fr(i, 0.25), fr(i, 0.5), fr(i, 0.8125)]);
                }
            }
        }
        Level::Sides => {
            v.extend([lo(0.75), fr((n - 1) / 2, 0.375), hi(1.25)]);
        }
        Level::Fine => {
            let span = nodes[n - 1] - nodes[0];
            for k in [1e10, 3e7, 1e4, 33.0] {
                v.push(nodes[0] - span * T::of(k));
                v.push(nodes[n - 1] + span * T::of(k));
            }
            for k in GRADES {
                let q = 2f64.powi(-k);
                v.extend([lo(q), hi(q)]);
                for i in 0..n - 1 {
                    let h = nodes[i + 1] - nodes[i];
                    let mid = nodes[i] + h * T::of(0.5);
                    v.extend([nodes[i] + h * T::of(q), mid - h * T::of(q), mid + h * T::of(q), nodes[i + 1] - h * T::of(q)]);
                }
            }
        }
    }
    v
}

/// Columns of the C-ordered product of positions.
pub fn product_obs<T: Copy>(pos: &[Vec<T>]) -> Vec<Vec<T>> {
    let tot: usize = pos.iter().map(|p| p.len()).product();
    let mut cols: Vec<Vec<T>> = pos.iter().map(|_| Vec::with_capacity(tot)).collect();
    let mut inner = tot;
    for (a, p) in pos.iter().enumerate() {
        inner /= p.len();
        let block = p.len() * inner;
        for i in 0..tot {
            cols[a].push(p[(i % block) / inner]);
        }
    }
    cols
}

/// de Bruijn sequence over `k` symbols, order `n` (cyclic), as indices.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0usize; k * n + 1];
    let mut seq = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, seq);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, seq);
            }
        }
    }
    db(1, 1, k, n, &mut a, &mut seq);
    // make it linear: append the first n-1 symbols
    for i in 0..n.saturating_sub(1) {
        let s = seq[i % seq.len()];
        seq.push(s);
    }
    seq
}

/// All vectors in the product of the given alphabets.
pub fn cart<T: Clone>(alph: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut r: Vec<Vec<T>> = vec![vec![]];
    for a in alph {
        let mut n = vec![];
        for p in &r {
            for x in a {
                let mut q = p.clone();
                q.push(x.clone());
                n.push(q);
            }
        }
        r = n;
    }
    r
}
pub fn power<T: Clone>(a: &[T], n: usize) -> Vec<Vec<T>> {
    cart(&vec![a.to_vec(); n])
}
