//! C10: continuity, smoothness and polynomial degree along every axis, across every node.
use vh::conf::{describe, key, reference};
use vh::gen_::*;
use vh::iface::*;
use vh::num::{DD, Elt};
use vh::report::{Rep, hash_str};
use vh::shapes::*;

struct T1 {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    axis: usize,
    others: Level,
    /// keep only this rotation of the other axes' positions (single point), if set
    rot: Option<usize>,
}

fn others<T: Elt>(p: &Problem<T>, t: &T1) -> Vec<Vec<T>> {
    (0..t.dims.len())
        .map(|a| {
            if a == t.axis {
                return vec![];
            }
            let v = positions(&p.grids[a], t.others);
            match t.rot {
                Some(r) => vec![v[(r + a) % v.len()]],
                None => v,
            }
        })
        .collect()
}

/// f32/f64: consecutive representable coordinates around every node give no jump.
fn run_float<T: Elt>(rep: &Rep, t: &T1) {
    let p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 77);
    let k = key(&p, &format!("run/{}/{}/{:?}/{:?}", sp_tag(&t.sp), t.axis, t.others, t.rot));
    rep.case(&k, || {
        let mut pos = others(&p, t);
        let w = 9usize; // coordinates per node
        let mut along = vec![];
        for &g in &p.grids[t.axis] {
            let mut x = g;
            for _ in 0..w / 2 {
                x = x.next_down_();
            }
            for _ in 0..w {
                along.push(x);
                x = x.next_up_();
            }
        }
        pos[t.axis] = along.clone();
        let r = reference(&p, &pos, false);
        let cols = product_obs(&pos);
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let tot = cols[0].len();
        rep.states_keyed(hash_str(&k), tot);
        let inner: usize = pos[t.axis + 1..].iter().map(|x| x.len()).product();
        for &e in &impls(t.kind, t.dims.len()) {
            let mut out = vec![T::nan(); tot];
            if let Err(m) = eval(&p, e, &os, &mut out) {
                rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                return;
            }
            for i in 0..tot {
                let ai = i / inner % along.len();
                if ai % w == w - 1 {
                    continue;
                }
                let j = i + inner;
                let d = (out[i].f() - out[j].f()).abs();
                let tol = T::EPS * (r.tol[i] + r.tol[j]) + 1e-300;
                if !(d <= tol) {
                    rep.violation(&k, format!("{e:?}: jump of {d:e} (allowed {tol:e}) between consecutive coordinates {:?} and {:?} on axis {}: {:?} then {:?}; {}", along[ai], along[ai + 1], t.axis, out[i], out[j], describe(&p, &cols, i)));
                    return;
                }
                rep.ratio_fast(d / tol, &k);
            }
            rep.trace(tot);
        }
    });
}

/// f32/f64: at graded distances (2^-5 to 2^-48 of a cell) from the ends and the middle of every piece
/// the value is that of the polynomial through a few well-spread points of the piece.
fn run_graded<T: Elt>(rep: &Rep, t: &T1) {
    let p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 79);
    let k = key(&p, &format!("graded/{}/{}/{:?}/{:?}", sp_tag(&t.sp), t.axis, t.others, t.rot));
    rep.case(&k, || {
        let mut pos = others(&p, t);
        let g = &p.grids[t.axis];
        let n = g.len();
        let mut along: Vec<T> = vec![];
        // (start in `along`, anchors, graded points) of every piece
        let mut pieces: Vec<(usize, usize, usize, String)> = vec![];
        for c in 0..n + 1 {
            let deg = degree(t, n, c);
            let (x0, h, anchors): (T, T, Vec<f64>) = if c < n - 1 {
                (g[c], g[c + 1] - g[c], (0..=deg).map(|i| (0.5 + i as f64) / (deg as f64 + 1.0)).collect())
            } else if c == n - 1 {
                (g[0], g[0] - g[1], (0..=deg).map(|i| 0.5 + i as f64).collect())
            } else {
                (g[n - 1], g[n - 1] - g[n - 2], (0..=deg).map(|i| 0.5 + i as f64).collect())
            };
            let b = along.len();
            along.extend(anchors.iter().map(|f| x0 + h * T::of(*f)));
            for e in [3, 5, 8, 10, 13, 16, 20, 24, 27, 30, 34, 40, 46] {
                let q = T::of(2f64.powi(-e));
                along.push(x0 + h * q);
                if c < n - 1 {
                    let mid = x0 + h * T::of(0.5);
                    along.extend([g[c + 1] - h * q, mid - h * q, mid + h * q]);
                }
            }
            let name = if c == n - 1 { "below the grid".into() } else if c == n { "above the grid".to_string() } else { format!("in cell {c}") };
            pieces.push((b, deg + 1, along.len() - b, name));
        }
        pos[t.axis] = along.clone();
        let r = reference(&p, &pos, false);
        let cols = product_obs(&pos);
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let tot = cols[0].len();
        rep.states_keyed(hash_str(&k), tot);
        let inner: usize = pos[t.axis + 1..].iter().map(|x| x.len()).product();
        let outer = tot / inner / along.len();
        let xs: Vec<DD> = along.iter().map(|x| x.dd()).collect();
        // Lagrange weights, the same for every line
        let w: Vec<Vec<(Vec<DD>, f64)>> = pieces
            .iter()
            .map(|&(b, na, len, _)| {
                (b + na..b + len)
                    .map(|q| {
                        let l: Vec<DD> = (0..na)
                            .map(|i| (0..na).filter(|&j| j != i).fold(DD::from_f64(1.0), |m, j| m * (xs[q] - xs[b + j]) / (xs[b + i] - xs[b + j])))
                            .collect();
                        let s = 1.0 + l.iter().map(|x| x.hi.abs()).sum::<f64>();
                        (l, s)
                    })
                    .collect()
            })
            .collect();
        for &e in &impls(t.kind, t.dims.len()) {
            let mut out = vec![T::nan(); tot];
            if let Err(m) = eval(&p, e, &os, &mut out) {
                rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                return;
            }
            for o in 0..outer {
                for i in 0..inner {
                    let ix = |a: usize| (o * along.len() + a) * inner + i;
                    for ((b, na, len, name), w) in pieces.iter().zip(&w) {
                        let scale = (*b..b + len).map(|a| r.tol[ix(a)]).fold(0.0, f64::max);
                        for (l, q) in w.iter().zip(b + na..b + len) {
                            let mut y = DD::from_f64(0.0);
                            for j in 0..*na {
                                y = y + l.0[j] * out[ix(b + j)].dd();
                            }
                            let d = (y - out[ix(q)].dd()).hi.abs();
                            let tol = T::EPS * scale * l.1 + 1e-300;
                            if !(d <= tol) {
                                rep.violation(&k, format!("{e:?}: {:?} is {d:e} (allowed {tol:e}) off the polynomial of the piece {name} along axis {}; {}", out[ix(q)], t.axis, describe(&p, &cols, ix(q))));
                                return;
                            }
                            rep.ratio_fast(d / tol, &k);
                        }
                    }
                }
            }
            rep.trace(tot);
        }
    });
}

fn degree(t: &T1, n: usize, c: usize) -> usize {
    match t.kind {
        Kind::Linear => 1,
        _ => {
            if c >= n - 1 {
                if t.lin { 1 } else { 2 }
            } else if c == 0 || c == n - 2 {
                2
            } else {
                3
            }
        }
    }
}

/// Double-double: one-sided slopes at nodes agree, finite differences of too high an order vanish.
fn run_dd(rep: &Rep, t: &T1) {
    let p = problem::<DD>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 78);
    let k = key(&p, &format!("poly/{}/{}/{:?}/{:?}", sp_tag(&t.sp), t.axis, t.others, t.rot));
    rep.case(&k, || {
        let mut pos = others(&p, t);
        let g = ref_nodes(&p, t.axis);
        let n = g.len();
        let hs: Vec<f64> = (0..n - 1).map(|i| (g[i + 1] - g[i]).hi).collect();
        let hmin = hs.iter().copied().fold(f64::INFINITY, f64::min);
        let delta = DD::from_f64(2f64.powi(hmin.log2().floor() as i32 - 34));
        let d2 = delta + delta;
        let mut along: Vec<DD> = vec![];
        // per node: x-2d, x-d, x, x+d, x+2d
        for x in &g {
            along.extend([*x - d2, *x - delta, *x, *x + delta, *x + d2]);
        }
        // per cell (and the two outsides): Q equally spaced points
        const Q: usize = 7;
        let at = |i: usize, f: f64| g[i] + (g[i + 1] - g[i]) * DD::from_f64(f);
        for c in 0..n - 1 {
            for q in 0..Q {
                along.push(at(c, 0.03125 + 0.15625 * q as f64));
            }
        }
        for q in 0..Q {
            along.push(at(0, -0.03125 - 0.75 * q as f64));
        }
        for q in 0..Q {
            along.push(at(n - 2, 1.03125 + 0.75 * q as f64));
        }
        pos[t.axis] = along.clone();
        let r = reference(&p, &pos, true);
        let cols = product_obs(&pos);
        let os: Vec<&[DD]> = cols.iter().map(|c| &c[..]).collect();
        let tot = cols[0].len();
        rep.states_keyed(hash_str(&k), tot);
        rep.sample(|| format!("{k}: {tot} points in double-double, slopes on both sides of {n} nodes, degrees of {} pieces", n + 1));
        let inner: usize = pos[t.axis + 1..].iter().map(|x| x.len()).product();
        let outer = tot / inner / along.len();
        for &e in &impls(t.kind, t.dims.len()) {
            let mut out = vec![DD::nan_(); tot];
            if let Err(m) = eval(&p, e, &os, &mut out) {
                rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                return;
            }
            if let Some(j) = out.iter().position(|o| !o.hi.is_finite()) {
                rep.violation(&k, format!("{e:?}: result {:?}; {}", out[j], describe(&p, &cols, j)));
                return;
            }
            for o in 0..outer {
                for i in 0..inner {
                    let ix = |a: usize| (o * along.len() + a) * inner + i;
                    let v = |a: usize| out[ix(a)];
                    for j in 0..n {
                        let b = 5 * j;
                        let (fm2, fm, f0, fp, fp2) = (v(b), v(b + 1), v(b + 2), v(b + 3), v(b + 4));
                        // magnitude of what is being summed, and of the slope in it
                        let scale = r.tol[ix(b + 2)].max(r.tol[ix(b + 4)]).max(1.0);
                        let step = (fp - f0).absd().hi.max((f0 - fm).absd().hi);
                        let lim = 64.0 * scale * delta.hi / hmin;
                        if !(step <= lim) {
                            rep.violation(&k, format!("{e:?}: jump of {step:e} at node {j} of axis {}; {}", t.axis, describe(&p, &cols, ix(b + 2))));
                            return;
                        }
                        if t.kind == Kind::Cubic {
                            let c = DD::from_f64;
                            let left = (c(3.0) * f0 - c(4.0) * fm + fm2) / d2;
                            let right = (c(4.0) * fp - c(3.0) * f0 - fp2) / d2;
                            let d = (left - right).absd().hi;
                            let tol = 1e-14 * scale / hmin;
                            if !(d <= tol) {
                                rep.violation(&k, format!("{e:?}: slopes {:e} and {:e} on the two sides of node {j} of axis {}; {}", left.hi, right.hi, t.axis, describe(&p, &cols, ix(b + 2))));
                                return;
                            }
                            rep.ratio_fast(d / tol, &k);
                        }
                    }
                    for c in 0..n + 1 {
                        let deg = degree(t, n, c);
                        let b = 5 * n + Q * c;
                        let mut d: Vec<DD> = (0..Q).map(|q| v(b + q)).collect();
                        let scale = (0..Q).map(|q| r.tol[ix(b + q)]).fold(1.0, f64::max);
                        for _ in 0..deg + 1 {
                            d = d.windows(2).map(|w| w[1] - w[0]).collect();
                        }
                        let m = d.iter().map(|x| x.absd().hi).fold(0.0, f64::max);
                        let tol = DD::EPS * scale * 64.0;
                        if !(m <= tol) {
                            let piece = if c == n - 1 { "below the grid".into() } else if c == n { "above the grid".to_string() } else { format!("in cell {c}") };
                            rep.violation(&k, format!("{e:?}: not a polynomial of degree {deg} {piece} along axis {}: difference of order {} is {m:e} (allowed {tol:e}); {}", t.axis, deg + 1, describe(&p, &cols, ix(b))));
                            return;
                        }
                        rep.ratio_fast(m / tol, &k);
                    }
                }
            }
            rep.trace(tot);
        }
    });
}

trait Nan_ {
    fn nan_() -> Self;
}
impl Nan_ for DD {
    fn nan_() -> DD {
        DD { hi: f64::NAN, lo: 0.0 }
    }
}

fn main() {
    let rep = Rep::new("C10");
    let th = rep.thorough;
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        if kind == Kind::Nearest {
            continue;
        }
        let m = kind.min_n();
        for n in m.max(3)..=m + if th { 4 } else { 2 } {
            for s in bits(regular, n) {
                v.push(T1 { kind, regular, lin, sp: vec![s], dims: vec![n], axis: 0, others: Level::Core, rot: None });
            }
        }
        for nd in 1..=8usize {
            let near = if regular || nd > 3 { vec![] } else { vec![vec![Spacing::NearEven; nd]] };
            for (q, sp) in mixes(regular, nd).into_iter().chain(dyadic(regular, nd)).chain(near).chain(if nd > 4 { vec![] } else { vh::shapes::odd(regular, nd) }).enumerate() {
                let mut shapes: Vec<Vec<usize>> = match nd {
                    1 => (m..=m + 9).chain([17, 33, 70]).chain(if th { vec![129, 257, 1025] } else { vec![] }).map(|n| vec![n]).collect(),
                    2 => power(&[m, m + 1, m + 3], 2),
                    3 => power(&[m, m + 1], 3),
                    4 if th => power(&[m, m + 1], 4),
                    _ => (0..2usize).map(|s| (0..nd).map(|a| m + ((a + s) % 3 == q % 3) as usize).collect()).collect(),
                };
                if nd >= 7 && kind == Kind::Cubic && !th {
                    shapes = vec![(0..nd).map(|a| m + (a == q % nd) as usize).collect()];
                    if q >= 2 {
                        continue;
                    }
                }
                for dims in shapes {
                    for axis in 0..nd {
                        let mk = |others, rot| T1 { kind, regular, lin, sp: sp.clone(), dims: dims.clone(), axis, others, rot };
                        match nd {
                            1 => v.push(mk(Level::Core, None)),
                            2 => v.push(mk(Level::Mid, None)),
                            3 => v.push(mk(Level::Core, None)),
                            4 => v.push(mk(Level::Sides, None)),
                            _ => {
                                if kind == Kind::Linear && (nd <= 6 || th) {
                                    v.push(mk(Level::Sides, None))
                                } else {
                                    let l = if nd >= 7 { 2 } else { 5 };
                                    for r in 0..if th { 5 } else { l } {
                                        if nd == 8 && r != axis % 2 && !th {
                                            continue;
                                        }
                                        v.push(mk(Level::Core, Some(r)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse((t.dims.len(), t.dims.iter().product::<usize>())));
    rep.note("axis runs", 5 * v.len() as u64);
    rep.par(&v, |t| {
        run_dd(&rep, t);
        run_float::<f64>(&rep, t);
        run_float::<f32>(&rep, t);
        run_graded::<f64>(&rep, t);
        run_graded::<f32>(&rep, t);
    });
    rep.finish()
}
