//! C11: axis order, axis direction, origin and units do not matter.
use vh::conf::{describe, key, reference};
use vh::gen_::*;
use vh::iface::*;
use vh::num::Elt;
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

struct T1 {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    lv: Level,
    rot: Option<usize>,
}

/// A transformed problem, its positions, and how to read its results back.
struct Tr<T> {
    what: String,
    p: Problem<T>,
    /// columns in the same point order as the base columns
    cols: Vec<Vec<T>>,
    /// results are to be divided by this power of two
    vscale: i32,
    /// exact transformation: the same ties, and nearest must agree at them
    exact: bool,
    /// more coordinate rounding than in the base problem: extra tolerance factor
    extra: f64,
}

fn pw<T: Elt>(k: i32) -> T {
    T::of(2.0).powi(k)
}

fn permute<T: Elt>(p: &Problem<T>, cols: &[Vec<T>], perm: &[usize]) -> Tr<T> {
    let nd = perm.len();
    let dims: Vec<usize> = perm.iter().map(|&a| p.dims[a]).collect();
    let mut st = vec![1usize; nd];
    for a in (0..nd - 1).rev() {
        st[a] = st[a + 1] * p.dims[a + 1];
    }
    let vals = (0..p.vals.len())
        .map(|i| {
            let mut r = i;
            let mut o = 0;
            for a in (0..nd).rev() {
                o += (r % dims[a]) * st[perm[a]];
                r /= dims[a];
            }
            p.vals[o]
        })
        .collect();
    let pick = |v: &Vec<T>| perm.iter().map(|&a| v[a]).collect::<Vec<T>>();
    let q = Problem {
        starts: pick(&p.starts),
        steps: pick(&p.steps),
        grids: perm.iter().map(|&a| p.grids[a].clone()).collect(),
        dims,
        vals,
        ..p.clone()
    };
    Tr { what: format!("axes reordered {perm:?}"), p: q, cols: perm.iter().map(|&a| cols[a].clone()).collect(), vscale: 0, exact: true, extra: 1.0 }
}

fn reverse<T: Elt>(p: &Problem<T>, cols: &[Vec<T>], set: usize, exact: bool) -> Tr<T> {
    let nd = p.dims.len();
    let mut q = p.clone();
    let mut c = cols.to_vec();
    let mut st = vec![1usize; nd];
    for a in (0..nd - 1).rev() {
        st[a] = st[a + 1] * p.dims[a + 1];
    }
    for a in 0..nd {
        if set >> a & 1 == 1 {
            q.grids[a] = p.grids[a].iter().rev().map(|x| -*x).collect();
            q.starts[a] = -(p.starts[a] + p.steps[a] * T::of((p.dims[a] - 1) as f64));
            c[a].iter_mut().for_each(|x| *x = -*x);
        }
    }
    q.vals = (0..p.vals.len())
        .map(|i| {
            let mut o = 0;
            for a in 0..nd {
                let x = i / st[a] % p.dims[a];
                o += st[a] * if set >> a & 1 == 1 { p.dims[a] - 1 - x } else { x };
            }
            p.vals[o]
        })
        .collect();
    Tr { what: format!("axes reversed {set:b}"), p: q, cols: c, vscale: 0, exact: false, extra: if exact { 1.0 } else { 2.0 } }
}

fn scale<T: Elt>(p: &Problem<T>, cols: &[Vec<T>], k: &[i32], kv: i32) -> Tr<T> {
    let mut q = p.clone();
    let mut c = cols.to_vec();
    for a in 0..k.len() {
        let f = pw::<T>(k[a]);
        q.starts[a] = q.starts[a] * f;
        q.steps[a] = q.steps[a] * f;
        q.grids[a].iter_mut().for_each(|x| *x = *x * f);
        c[a].iter_mut().for_each(|x| *x = *x * f);
    }
    q.vals.iter_mut().for_each(|x| *x = *x * pw::<T>(kv));
    Tr { what: format!("coordinates times 2^{k:?}, values times 2^{kv}"), p: q, cols: c, vscale: kv, exact: true, extra: 1.0 }
}

fn shift<T: Elt>(p: &Problem<T>, cols: &[Vec<T>], by: &[f64]) -> Tr<T> {
    let mut q = p.clone();
    let mut c = cols.to_vec();
    for a in 0..by.len() {
        let s = T::of(by[a]);
        q.starts[a] = q.starts[a] + s;
        q.grids[a].iter_mut().for_each(|x| *x = *x + s);
        c[a].iter_mut().for_each(|x| *x = *x + s);
    }
    Tr { what: format!("shifted by {by:?}"), p: q, cols: c, vscale: 0, exact: true, extra: 1.0 }
}

fn perms(nd: usize) -> Vec<Vec<usize>> {
    if nd <= 4 {
        let mut r: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..nd {
            r = r.into_iter().flat_map(|p| (0..nd).filter(|x| !p.contains(x)).map(|x| [p.clone(), vec![x]].concat()).collect::<Vec<_>>()).collect();
        }
        r.retain(|p| p.iter().enumerate().any(|(i, x)| i != *x));
        r
    } else {
        let id: Vec<usize> = (0..nd).collect();
        let mut r = vec![];
        for k in 1..nd {
            let mut p = id.clone();
            p.rotate_left(k);
            r.push(p);
        }
        for i in 0..nd {
            for j in i + 1..nd {
                let mut p = id.clone();
                p.swap(i, j);
                r.push(p);
            }
        }
        r
    }
}

fn run<T: Elt>(rep: &Rep, t: &T1) {
    let nd = t.dims.len();
    let p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 55);
    let exact = t.sp.iter().all(|s| s.exact());
    let k = key(&p, &format!("{}/{:?}/{:?}", sp_tag(&t.sp), t.lv, t.rot));
    rep.case(&k, || {
        let mut pos: Vec<Vec<T>> = (0..nd).map(|a| positions(&p.grids[a], t.lv)).collect();
        if exact {
            // coordinates exactly representable with few bits, so that shifts are exact; they include exact midpoints
            for (a, v) in pos.iter_mut().enumerate() {
                for (i, x) in v.iter_mut().enumerate() {
                    *x = T::of((x.f() * 64.0).round() / 64.0);
                    if i % 4 == 2 && t.kind == Kind::Nearest {
                        let j = i % (t.dims[a] - 1);
                        *x = (p.grids[a][j] + p.grids[a][j + 1]) * T::of(0.5);
                    }
                }
            }
        }
        if let Some(r) = t.rot {
            for (a, v) in pos.iter_mut().enumerate() {
                if a != r % nd && a != (r / nd) % nd {
                    *v = vec![v[(r + a) % v.len()]];
                }
            }
        }
        let cols = product_obs(&pos);
        let tot = cols[0].len();
        let r = reference(&p, &pos, exact);
        let mut trs: Vec<Tr<T>> = vec![];
        for pm in perms(nd) {
            trs.push(permute(&p, &cols, &pm));
        }
        let subsets: Vec<usize> = if nd <= 4 || rep.thorough { (1..1 << nd).collect() } else { (0..nd).map(|a| 1 << a).chain([(1 << nd) - 1, 0b10101010 & ((1 << nd) - 1)]).collect() };
        for s in subsets {
            trs.push(reverse(&p, &cols, s, exact));
        }
        let big = if T::NAME == "f32" { 30 } else { 300 };
        let mut ks: Vec<Vec<i32>> = vec![];
        for e in [big, big * 2 / 3, 40.min(big / 2), 3] {
            for s in [e, -e] {
                ks.push(vec![s; nd]);
                if nd > 1 {
                    for a in 0..nd {
                        ks.push((0..nd).map(|b| if a == b { s } else { 0 }).collect());
                        ks.push((0..nd).map(|b| if a == b { s } else { -s }).collect());
                    }
                }
            }
        }
        for kx in &ks {
            trs.push(scale(&p, &cols, kx, 0));
        }
        for kv in [big, -big, big / 2, -big / 2, 5, -5] {
            trs.push(scale(&p, &cols, &vec![0; nd], kv));
        }
        for (a, b) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
            trs.push(scale(&p, &cols, &vec![a * big / 3; nd], b * big / 3));
        }
        if exact {
            for s in [1.0, -1.0, 64.0, -1024.0, 0.5] {
                trs.push(shift(&p, &cols, &vec![s; nd]));
                for a in 0..nd {
                    trs.push(shift(&p, &cols, &(0..nd).map(|b| if a == b { s } else { 0.0 }).collect::<Vec<_>>()));
                }
            }
        }
        rep.states_keyed(hash_str(&k), tot * trs.len());
        rep.sample(|| format!("{k}: {} transformations of {} points", trs.len(), tot));
        let mut ents = impls(t.kind, nd);
        if nd <= 3 {
            ents.push(Entry::Fn);
        }
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let base: Vec<Vec<T>> = ents
            .iter()
            .map(|e| {
                let mut o = vec![T::nan(); tot];
                eval(&p, *e, &os, &mut o).expect("base problem");
                o
            })
            .collect();
        for tr in &trs {
            let tos: Vec<&[T]> = tr.cols.iter().map(|c| &c[..]).collect();
            // shifted problems have larger coordinates: their own reference bound applies
            let tol2: Option<Vec<f64>> = if tr.what.starts_with("shift") {
                let tpos: Vec<Vec<T>> = (0..nd)
                    .map(|a| {
                        let s = tr.p.grids[a][0] - p.grids[a][0];
                        pos[a].iter().map(|x| *x + s).collect()
                    })
                    .collect();
                Some(reference(&tr.p, &tpos, true).tol)
            } else {
                None
            };
            for (ei, &e) in ents.iter().enumerate() {
                let mut out = vec![T::nan(); tot];
                if let Err(m) = eval(&tr.p, e, &tos, &mut out) {
                    rep.violation(&k, format!("{e:?}: {}: error {m:?}", tr.what));
                    return;
                }
                let back = pw::<T>(-tr.vscale);
                for j in 0..tot {
                    let a = base[ei][j];
                    let b = out[j] * back;
                    let (bad, tol) = if t.kind == Kind::Nearest {
                        // under reversal (and with rounded nodes) a tie may go the other way
                        let skip = (!tr.exact || !exact) && reversed_tie(t, &p, &cols, j, tr, exact);
                        (!skip && a != b, 0.0)
                    } else {
                        let tol = T::EPS * (r.tol[j] + tol2.as_ref().map_or(r.tol[j], |v| v[j])) * tr.extra + 1e-300;
                        let d = (a.f() - b.f()).abs();
                        if d <= tol {
                            rep.ratio_fast(d / tol, &k);
                        }
                        (!(d <= tol), tol)
                    };
                    if bad {
                        rep.violation(&k, format!("{e:?}: {}: {a:?} becomes {b:?} (allowed difference {tol:e}); {}", tr.what, describe(&p, &cols, j)));
                        return;
                    }
                }
                rep.trace(tot);
            }
        }
    });
}

/// Is the point within rounding of a tie on some axis (or exactly on one, for reversals)?
fn reversed_tie<T: Elt>(t: &T1, p: &Problem<T>, cols: &[Vec<T>], j: usize, tr: &Tr<T>, exact: bool) -> bool {
    if tr.what.starts_with("axes reordered") {
        return false;
    }
    (0..t.dims.len()).any(|a| {
        let g = ref_nodes(p, a);
        let x = cols[a][j].f();
        let big = g[0].hi.abs().max(g[g.len() - 1].hi.abs()).max(x.abs());
        let tol = if exact { 0.0 } else { 16.0 * T::EPS * big };
        g.windows(2).any(|w| ((w[0].hi + w[1].hi) * 0.5 - x).abs() <= tol)
    })
}

fn run1d<T: Elt>(rep: &Rep, n: usize, sp: Spacing) {
    let (s, h, g) = axis::<T>(sp, n, n % 5);
    let vals = dense::<T>(n, 9);
    let mut xs = positions(&g, Level::Full);
    xs.retain(|x| (x.f() - g[0].f()).abs() < 1e6);
    let big = if T::NAME == "f32" { 30 } else { 300 };
    for regular in [true, false] {
        if regular && !sp.even() {
            continue;
        }
        let k = format!("1d/{}/{}/{:?}/{n}", T::NAME, if regular { "regular" } else { "rectilinear" }, sp);
        rep.case(&k, || {
            rep.states_keyed(hash_str(&k), xs.len() * Rule::ALL.len());
            for rule in Rule::ALL {
                let mk = |s: T, h: T, g: &[T], v: &[T], x: &[T]| {
                    let gg = if regular { G1::Reg(s, h) } else { G1::Rect(g) };
                    let mut o = vec![T::nan(); x.len()];
                    eval1(&gg, v, rule, How::Batch, x, &mut o).map(|_| o)
                };
                let base = mk(s, h, &g, &vals, &xs).expect("base");
                for (kc, kv) in [(big, 0), (-big, 0), (0, big), (0, -big), (big / 2, big / 2), (big / 2, -big / 2), (-big / 2, big / 2), (-big / 2, -big / 2), (1, 0), (-7, 3)] {
                    let (f, fv) = (pw::<T>(kc), pw::<T>(kv));
                    let sc = |v: &[T], f: T| v.iter().map(|x| *x * f).collect::<Vec<T>>();
                    // coordinates that underflow or overflow are outside the property
                    let xx: Vec<T> = sc(&xs, f);
                    let out = match mk(s * f, h * f, &sc(&g, f), &sc(&vals, fv), &xx) {
                        Ok(o) => o,
                        Err(m) => {
                            rep.violation(&k, format!("{rule:?}: 2^{kc}, values 2^{kv}: error {m:?}"));
                            return;
                        }
                    };
                    for j in 0..xs.len() {
                        if xs[j].f() != 0.0 && xs[j].f().abs() < 1e-30 {
                            continue;
                        }
                        let (a, b) = (base[j].f(), (out[j] * pw::<T>(-kv)).f());
                        let t = ((xs[j] - g[0]).f() / h.f()).abs() + 2.0;
                        let tol = match rule {
                            Rule::Linear | Rule::Hold => T::EPS * 64.0 * (t + g[n - 1].f().abs() / h.f() + t * 8.0),
                            _ => 0.0,
                        };
                        if !((a - b).abs() <= tol) {
                            rep.violation(&k, format!("{rule:?}: coordinates times 2^{kc}, values times 2^{kv}: {a:?} becomes {b:?} at {:?}", xs[j]));
                            return;
                        }
                    }
                    rep.trace(xs.len());
                }
                if sp.exact() {
                    for sh in [1.0, -3.0, 256.0] {
                        let d = T::of(sh);
                        let xe: Vec<T> = xs.iter().map(|x| T::of((x.f() * 64.0).round() / 64.0)).collect();
                        let a = mk(s, h, &g, &vals, &xe).expect("base");
                        let b = mk(s + d, h, &g.iter().map(|x| *x + d).collect::<Vec<_>>(), &vals, &xe.iter().map(|x| *x + d).collect::<Vec<_>>()).unwrap_or_default();
                        for j in 0..xe.len() {
                            let t = ((xe[j] - g[0]).f() / h.f()).abs() + 2.0 + sh.abs() / h.f();
                            let tol = if matches!(rule, Rule::Linear | Rule::Hold) { T::EPS * 64.0 * (9.0 * t + g[n - 1].f().abs() / h.f()) } else { 0.0 };
                            if b.len() != a.len() || !((a[j].f() - b[j].f()).abs() <= tol) {
                                rep.violation(&k, format!("{rule:?}: shifted by {sh}: {:?} becomes {:?} at {:?}", a[j], b.get(j), xe[j]));
                                return;
                            }
                        }
                        rep.trace(xe.len());
                    }
                }
            }
        });
    }
}

fn main() {
    let rep = Rep::new("C11");
    let th = rep.thorough;
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        let m = kind.min_n();
        let heavy = kind == Kind::Cubic;
        for nd in 1..=kind.max_dims() {
            for (q, sp) in mixes(regular, nd).into_iter().chain(dyadic(regular, nd)).enumerate() {
                let mk = |dims: Vec<usize>, lv, rot| T1 { kind, regular, lin, sp: sp.clone(), dims, lv, rot };
                match nd {
                    1 => {
                        for n in (m..=m + 7).chain([33]) {
                            v.push(mk(vec![n], Level::Full, None));
                        }
                    }
                    2 => {
                        for d in power(&[m, m + 1, m + 3], 2) {
                            v.push(mk(d, Level::Mid, None));
                        }
                    }
                    3 => {
                        for d in [vec![m, m + 1, m + 2], vec![m + 2, m, m + 1], vec![m + 1, m, m]] {
                            v.push(mk(d, if th && !heavy { Level::Mid } else { Level::Core }, None));
                        }
                    }
                    4 => v.push(mk((0..4).map(|a| m + (a + q) % 3).collect(), if heavy && !th { Level::Sides } else { Level::Core }, None)),
                    5 if !heavy => v.push(mk((0..5).map(|a| m + (a + q) % 3).collect(), Level::Sides, None)),
                    _ => {
                        if heavy && nd >= 7 && !th && q > 1 {
                            continue;
                        }
                        let d: Vec<usize> = (0..nd).map(|a| m + ((a + q) % 3 == 0 && (nd < 8 || a == q)) as usize).collect();
                        let n = if heavy && nd >= 7 { if th { 3 } else { 1 } } else { 4 };
                        for r in 0..n {
                            let a = r % nd;
                            let b = if heavy && nd >= 6 { a } else { (r + 1 + q) % nd };
                            v.push(mk(d.clone(), Level::Core, Some(a + nd * b)));
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse((t.dims.len(), t.dims.iter().product::<usize>())));
    rep.note("problems", 2 * v.len() as u64);
    rep.par(&v, |t| {
        run::<f64>(&rep, t);
        run::<f32>(&rep, t);
    });
    let one: Vec<(usize, Spacing)> = (2..=if th { 40 } else { 12 }).chain([65]).flat_map(|n| Spacing::ALL.map(|s| (n, s))).collect();
    rep.par(&one, |&(n, s)| {
        run1d::<f64>(&rep, n, s);
        run1d::<f32>(&rep, n, s);
    });
    rep.finish()
}
