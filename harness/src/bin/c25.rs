//! C25: the result is linear in the table; constants and the method's polynomials are reproduced.
use vh::gen_::*;
use vh::iface::*;
use vh::num::{DD, Elt};
use vh::refm;
use vh::report::{Rep, hash_str, mix};
use vh::shapes::*;

#[derive(Clone, Debug)]
struct Shape {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
}
fn powi(x: DD, e: usize) -> DD {
    (0..e).fold(DD::ONE, |a, _| a * x)
}
/// Tolerances (in units of eps, for tables of size one) and all the points.
struct Pts<T> {
    pos: Vec<Vec<T>>,
    cols: Vec<Vec<T>>,
    tol: Vec<f64>,
}
fn points<T: Elt>(p: &Problem<T>, pos: Vec<Vec<T>>) -> Pts<T> {
    let nd = p.dims.len();
    let axes: Vec<Vec<(f64, f64)>> = (0..nd)
        .map(|a| {
            let nodes = ref_nodes(p, a);
            pos[a]
                .iter()
                .map(|x| {
                    let w = refm::axis_weights(p.kind, p.lin, &nodes, x.dd(), T::EPS, true);
                    (w.norm().max(1.0), w.err)
                })
                .collect()
        })
        .collect();
    let cols = product_obs(&pos);
    let tot = cols[0].len();
    let mut tol = vec![0.0; tot];
    for (j, t) in tol.iter_mut().enumerate() {
        let (mut r, mut pr, mut sm) = (j, 1.0, 2.0);
        for a in (0..nd).rev() {
            let (nm, er) = axes[a][r % pos[a].len()];
            r /= pos[a].len();
            pr *= nm;
            // the table itself is rounded: one more unit
            sm += er / nm + 1.0;
        }
        *t = pr * sm;
    }
    Pts { pos, cols, tol }
}
fn run<T: Elt>(rep: &Rep, p: &Problem<T>, e: Entry, cols: &[Vec<T>], k: &str) -> Option<Vec<T>> {
    let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
    let mut out = vec![T::nan(); cols[0].len()];
    match eval(p, e, &os, &mut out) {
        Ok(()) => Some(out),
        Err(m) => {
            rep.violation(k, format!("{e:?}: unexpected error {m}"));
            None
        }
    }
}
fn keyed<T: Elt>(s: &Shape, tag: &str) -> String {
    format!("{:?}/{}/{}/lin={}/{:?}/{}/{tag}", s.kind, if s.regular { "regular" } else { "rectilinear" }, T::NAME, s.lin, s.dims, sp_tag(&s.sp))
}
fn build<T: Elt>(s: &Shape) -> Problem<T> {
    problem::<T>(s.kind, s.regular, s.lin, &s.sp, &s.dims, 5)
}
/// Positions of every class on each axis; pairs of axes in high dimension. `free`: axes varied.
fn axis_positions<T: Elt>(s: &Shape, p: &Problem<T>, free: &[usize], salt: usize) -> Vec<Vec<T>> {
    let nd = s.dims.len();
    let lv = match (nd, s.kind) {
        (1, _) => Level::Full,
        (2, _) => Level::Mid,
        _ => Level::Core,
    };
    (0..nd)
        .map(|a| {
            let mut v = positions(&p.grids[a], lv);
            if nd <= 2 {
                let g = &p.grids[a];
                let span = g[g.len() - 1] - g[0];
                v.insert(0, g[0] - span * T::of(50.0));
                v.push(g[g.len() - 1] + span * T::of(50.0));
            }
            if free.is_empty() || free.contains(&a) { v } else { vec![v[(a * 5 + salt) % v.len()]] }
        })
        .collect()
}
fn layouts(nd: usize, heavy: bool) -> Vec<Vec<usize>> {
    if nd <= 3 || (nd == 4 && !heavy) {
        return vec![vec![]];
    }
    let mut v = vec![];
    for a in 0..nd {
        for b in a + 1..nd {
            v.push(vec![a, b]);
        }
    }
    v
}

/// Constants and monomials, each against the function itself.
fn mono<T: Elt>(rep: &Rep, s: &Shape) {
    let nd = s.dims.len();
    let deg = if s.kind == Kind::Cubic { 2 } else { 1 };
    let p0 = build::<T>(s);
    let exps: Vec<Vec<usize>> = {
        let all: Vec<usize> = (0..=deg).collect();
        if nd <= 4 {
            power(&all, nd)
        } else {
            // every exponent pair on every pair of axes, and everything at once
            let mut v = vec![vec![0; nd], vec![deg; nd], vec![1; nd]];
            for a in 0..nd {
                for b in a + 1..nd {
                    for ea in 0..=deg {
                        for eb in 1..=deg {
                            let mut e = vec![0; nd];
                            e[a] = ea;
                            e[b] = eb;
                            if !v.contains(&e) {
                                v.push(e);
                            }
                        }
                    }
                }
            }
            v
        }
    };
    let heavy = s.kind == Kind::Cubic && nd >= 4;
    let ents = if nd <= 2 { entries(s.kind, nd) } else { impls(s.kind, nd) };
    // exact nodes of the grid the method sees; the function is taken relative to a centre near the grid,
    // so that its size stays of order one
    let nodes: Vec<Vec<DD>> = (0..nd).map(|a| ref_nodes(&p0, a)).collect();
    let cen: Vec<DD> = nodes.iter().map(|n| n[n.len() / 2]).collect();
    let len: Vec<DD> = nodes.iter().map(|n| n[n.len() - 1] - n[0]).collect();
    let tot: usize = s.dims.iter().product();
    let lays = layouts(nd, heavy);
    for (li, free) in lays.iter().enumerate() {
        let pts = points(&p0, axis_positions(s, &p0, free, li));
        let n = pts.cols[0].len();
        // side of each position of each axis
        let side: Vec<Vec<bool>> = (0..nd).map(|a| pts.pos[a].iter().map(|x| x.dd() < nodes[a][0] || x.dd() > nodes[a][s.dims[a] - 1]).collect()).collect();
        for (ei, ex) in exps.iter().enumerate() {
            if heavy && nd >= 5 && !rep.thorough && (ei + li) % 3 != 0 {
                continue;
            }
            let k = keyed::<T>(s, &format!("mono{ex:?}{free:?}").replace(' ', ""));
            rep.case(&k, || {
                let f = |a: usize, x: DD| powi((x - cen[a]) / len[a], ex[a]);
                let fa: Vec<Vec<DD>> = (0..nd).map(|a| nodes[a].iter().map(|x| f(a, *x)).collect()).collect();
                let mut p = p0.clone();
                for i in 0..tot {
                    let (mut r, mut v) = (i, DD::ONE);
                    for a in (0..nd).rev() {
                        v = v * fa[a][r % s.dims[a]];
                        r /= s.dims[a];
                    }
                    p.vals[i] = round_to::<T>(v);
                }
                let fx: Vec<Vec<DD>> = (0..nd).map(|a| pts.pos[a].iter().map(|x| f(a, x.dd())).collect()).collect();
                for &e in &ents {
                    let Some(out) = run(rep, &p, e, &pts.cols, &k) else { return };
                    let mut judged = 0;
                    for j in 0..n {
                        let (mut r, mut want, mut no) = (j, DD::ONE, false);
                        for a in (0..nd).rev() {
                            let q = r % pts.pos[a].len();
                            r /= pts.pos[a].len();
                            want = want * fx[a][q];
                            // linearized outside: only degree one is reproduced
                            no |= s.lin && ex[a] > 1 && side[a][q];
                        }
                        if no {
                            continue;
                        }
                        judged += 1;
                        let tol = 2.0 * T::EPS * pts.tol[j] + 1e-300;
                        let d = (out[j].dd() - want).hi.abs();
                        if !(d <= tol) {
                            let pt: Vec<T> = pts.cols.iter().map(|c| c[j]).collect();
                            rep.violation(&k, format!("{e:?} at {pt:?}: got {:?}, the function is {:?} (tolerance {tol:e}); starts {:?} steps {:?} grids {:?}", out[j], want.hi, p.starts, p.steps, p.grids));
                            return;
                        }
                        rep.ratio_fast(d / tol, &k);
                    }
                    rep.trace(judged.max(1));
                }
                rep.states_keyed(hash_str(&k), n);
                rep.sample(|| format!("{k}: {n} points"));
            });
        }
    }
}
fn round_to<T: Elt>(v: DD) -> T {
    if T::NAME == "dd" { T::of(v.hi) + T::of(v.lo) } else { T::of(v.hi) }
}

/// Sums and multiples of tables.
fn superpose<T: Elt>(rep: &Rep, s: &Shape) {
    let nd = s.dims.len();
    let p0 = build::<T>(s);
    let tot: usize = s.dims.iter().product();
    let heavy = s.kind == Kind::Cubic && nd >= 4;
    for (li, free) in layouts(nd, heavy).iter().enumerate() {
        let pts = points(&p0, axis_positions(s, &p0, free, li));
        let n = pts.cols[0].len();
        for (ei, e) in (if nd <= 2 { few(s.kind, nd) } else { impls(s.kind, nd) }).into_iter().enumerate() {
            let k = keyed::<T>(s, &format!("sum/{e:?}/{free:?}").replace(' ', ""));
            rep.case(&k, || {
                let with = |v: Vec<T>| -> Option<Vec<T>> {
                    let mut p = p0.clone();
                    p.vals = v;
                    run(rep, &p, e, &pts.cols, &k)
                };
                let hot = |i: usize, c: f64| -> Vec<T> { (0..tot).map(|j| if i == j { T::of(c) } else { T::zero() }).collect() };
                let judge = |what: &str, got: &[T], want: &dyn Fn(usize) -> DD, size: f64| -> bool {
                    for j in 0..n {
                        let tol = 2.0 * T::EPS * pts.tol[j] * size + 1e-300;
                        let w = want(j);
                        let d = (got[j].dd() - w).hi.abs();
                        if !(d <= tol) {
                            let pt: Vec<T> = pts.cols.iter().map(|c| c[j]).collect();
                            rep.violation(&k, format!("{what} at {pt:?}: got {:?}, expected {:?} (tolerance {tol:e}); starts {:?} steps {:?} grids {:?}", got[j], w.hi, p0.starts, p0.steps, p0.grids));
                            return false;
                        }
                        rep.ratio_fast(d / tol, &k);
                    }
                    rep.trace(n);
                    true
                };
                // the zero table
                let Some(z) = with(vec![T::zero(); tot]) else { return };
                if !judge("zero table", &z, &|_| DD::ZERO, 0.0) {
                    return;
                }
                // constants of every size
                for c in [1.0, -1.0, 0.3, 1e-20, -2.5e20, 1e30] {
                    let Some(g) = with(vec![T::of(c); tot]) else { return };
                    let cd = T::of(c).dd();
                    if !judge(&format!("constant {c}"), &g, &|_| cd, c.abs()) {
                        return;
                    }
                }
                // every basis table (all, or a spread of them), their multiples and their pairwise sums
                let pick: Vec<usize> = if tot <= if nd <= 2 { 24 } else { 8 } { (0..tot).collect() } else { (0..8).map(|q| (mix((q + ei) as u64) % tot as u64) as usize).collect() };
                let mut basis = vec![];
                for &i in &pick {
                    let Some(b) = with(hot(i, 1.0)) else { return };
                    basis.push(b);
                }
                for (q, &i) in pick.iter().enumerate() {
                    for c in [-1.0, 3.0, 0.1, 1e25] {
                        let Some(g) = with(hot(i, c)) else { return };
                        let cd = T::of(c).dd();
                        if !judge(&format!("{c} times basis table {i}"), &g, &|j| basis[q][j].dd() * cd, c.abs() * 2.0) {
                            return;
                        }
                    }
                }
                for (q, &i) in pick.iter().enumerate() {
                    for (r, &l) in pick.iter().enumerate().skip(q + 1) {
                        if i == l {
                            continue;
                        }
                        let mut v = hot(i, 1.0);
                        v[l] = T::of(-0.75);
                        let Some(g) = with(v) else { return };
                        if !judge(&format!("basis table {i} minus 3/4 of basis table {l}"), &g, &|j| basis[q][j].dd() - basis[r][j].dd() * DD::from_f64(0.75), 3.0) {
                            return;
                        }
                    }
                }
                // dense tables: sum, difference, multiples, and all basis results added up
                let (a, b) = (dense::<T>(tot, 11), dense::<T>(tot, 12));
                let (Some(fa), Some(fb)) = (with(a.clone()), with(b.clone())) else { return };
                let Some(fs) = with((0..tot).map(|i| a[i] + b[i]).collect()) else { return };
                if !judge("sum of two tables", &fs, &|j| fa[j].dd() + fb[j].dd(), 4.0) {
                    return;
                }
                let Some(fm) = with((0..tot).map(|i| a[i] * T::of(-3.0)).collect()) else { return };
                if !judge("-3 times a table", &fm, &|j| fa[j].dd() * DD::from_f64(-3.0), 6.0) {
                    return;
                }
                // a table plus a constant: constants of the table's own size and much larger
                for c in [1.0, 4096.0] {
                    let Some(g) = with((0..tot).map(|i| a[i] + T::of(c)).collect()) else { return };
                    if !judge(&format!("a table plus {c}"), &g, &|j| fa[j].dd() + DD::from_f64(c), c + 2.0) {
                        return;
                    }
                }
                if pick.len() == tot {
                    if !judge("dense table from basis results", &fa, &|j| (0..tot).fold(DD::ZERO, |x, i| x + basis[i][j].dd() * a[i].dd()), 1.0 + tot as f64) {
                        return;
                    }
                }
                rep.states_keyed(hash_str(&k), n * (pick.len() * (pick.len() + 7) / 2 + 11));
                rep.sample(|| format!("{k}: {n} points x {} basis tables", pick.len()));
            });
        }
    }
}

fn main() {
    let rep = Rep::new("C25");
    let th = rep.thorough;
    let mut v: Vec<Shape> = vec![];
    for (kind, regular, lin) in methods() {
        if kind == Kind::Nearest {
            continue;
        }
        let m = kind.min_n();
        let mut push = |dims: Vec<usize>, most: usize| {
            for sp in mixes(regular, dims.len()).into_iter().take(most) {
                v.push(Shape { kind, regular, lin, sp, dims: dims.clone() });
            }
        };
        for n in m..=m + if th { 14 } else { 7 } {
            push(vec![n], 4);
        }
        for n in [33, 100, 257, 4099] {
            push(vec![n], 4);
        }
        for d in power(&[m, m + 1, m + 3], 2) {
            push(d, 4);
        }
        push(vec![m, 40], 4);
        push(vec![40, m], 4);
        for nd in 3..=8 {
            for (pi, d) in power(&[m, m + 1], nd).into_iter().enumerate() {
                let big = d.iter().filter(|&&x| x > m).count();
                let keep = match (kind, nd) {
                    (_, 3) => true,
                    (Kind::Cubic, 4) => th || big <= 1 || big == 4,
                    (Kind::Cubic, 5) => big == 0 || (big == 1 && (th || pi == 4)),
                    (Kind::Cubic, 6) => big == 0,
                    (Kind::Cubic, _) => big == 0 && nd == 7 && th,
                    (_, 4) => true,
                    _ => big <= 1 && (th || nd < 7 || big == 0),
                };
                if keep {
                    push(d, if nd == 3 { 4 } else if nd == 4 { 2 } else { 1 });
                }
            }
        }
    }
    // longest first
    v.sort_by_key(|s| std::cmp::Reverse(s.dims.len() * (1 + 2 * (s.kind == Kind::Cubic) as usize)));
    rep.par(&v, |s| {
        mono::<f64>(&rep, s);
        mono::<f32>(&rep, s);
        let nd = s.dims.len();
        if nd <= 3 || (s.kind == Kind::Linear && nd <= 5) || th {
            mono::<DD>(&rep, s);
        }
        if s.dims.iter().product::<usize>() <= 100_000 {
            superpose::<f64>(&rep, s);
            superpose::<f32>(&rep, s);
        }
    });
    rep.finish()
}
