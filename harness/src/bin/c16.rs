//! C16: work per point is bounded by the method and dimension count, not by the data.
use interpn::multilinear;
use std::collections::HashMap;
use vh::gen_::*;
use vh::iface::*;
use vh::num::{Elt, OPS, W};
use vh::obj::*;
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

/// (arithmetic, comparisons) executed by `f`
fn cost(f: impl FnOnce()) -> (u64, u64) {
    let a = OPS.with(|o| o.get());
    f();
    let b = OPS.with(|o| o.get());
    (b.0 - a.0, b.1 - a.1)
}

fn spots<T: Elt>(g: &[T]) -> Vec<(&'static str, T)> {
    let n = g.len();
    let span = g[n - 1].f() - g[0].f();
    let at = |i: usize, f: f64| T::of(g[i].f() + (g[i + 1].f() - g[i].f()) * f);
    let big = if T::EPS > 1e-10 { 1e37 } else { 1e300 };
    let mut v = vec![
        ("interior", at((n - 1) / 2, 0.625)),
        ("below", T::of(g[0].f() - 0.5 * (g[1].f() - g[0].f()))),
        ("far below", T::of(g[0].f() - span * 1e3)),
        ("farther below", T::of(g[0].f() - span * 1e9)),
        ("extremely far below", T::of(-big)),
        ("first node", g[0]),
        ("first cell", at(0, 0.375)),
        ("node", g[n / 2]),
        ("last cell", at(n - 2, 0.25)),
        ("last node", g[n - 1]),
        ("above", T::of(g[n - 1].f() + (g[n - 1].f() - g[n - 2].f()))),
        ("far above", T::of(g[n - 1].f() + span * 1e3)),
        ("farther above", T::of(g[n - 1].f() + span * 1e9)),
        ("extremely far above", T::of(big)),
        ("infinite", T::infinity()),
        ("nan", T::nan()),
    ];
    if n > 8 {
        v.push(("second cell", at(1, 0.5)));
        v.push(("a quarter in", at(n / 4, 0.5)));
        v.push(("three quarters in", at(3 * n / 4, 0.5)));
    }
    v
}

/// Machine instructions of one evaluation, counted exactly by single-stepping.
fn instructions<T: Elt>(rep: &Rep, what: &Inst, nd: usize) {
    let k = format!("instructions/{}/{what:?}/{nd}D", T::NAME).replace(' ', "");
    rep.case(&k, || {
        let (kind, regular, lin) = match what {
            Inst::N(k, r, l, _) => (*k, *r, *l),
            Inst::One(_, r) => (Kind::Linear, *r, false),
        };
        let min = kind.min_n();
        let cap = if rep.thorough { 12_000 } else { 1500 };
        let base: usize = min.pow(nd as u32 - 1);
        let long = ((1usize << 18) / base).clamp(min + 3, 200_000);
        let mut sizes: Vec<(Vec<usize>, bool)> = vec![(vec![min; nd], true), (vec![min + 1; nd], true)];
        for a in 0..nd {
            for l in [33, long] {
                let mut d = vec![min; nd];
                d[a] = l;
                sizes.push((d, false));
            }
        }
        if nd == 2 {
            sizes.push((vec![301, 302], false));
        }
        let ctl = vh::step::Ctl::new();
        let turn = std::sync::atomic::AtomicUsize::new(0);
        let count = |f: &mut dyn FnMut()| -> u64 {
            f(); // once, so that nothing is resolved or faulted in while counting
            let _ = vh::step::stepped(&ctl, u64::MAX, &turn, 0, f);
            ctl.count()
        };
        let mut most = 0u64;
        let mut nst = 0usize;
        let sps: Vec<Spacing> = if regular { vec![Spacing::EvenDyadic] } else { vec![Spacing::UnevenGeneric] };
        for (dims, small) in &sizes {
            for &sp in &sps {
                let p: &'static Problem<T> = Box::leak(Box::new(problem::<T>(kind, regular, lin, &vec![sp; nd], dims, 3)));
                let it = match what {
                    Inst::N(_, _, _, rec) => make(p, *rec),
                    Inst::One(r, _) => make1(p, *r),
                }
                .unwrap();
                let lg: u64 = dims.iter().map(|&n| log2(n)).sum();
                let ss: Vec<Vec<(&str, T)>> = p.grids.iter().map(|g| spots(g)).collect();
                let mut pts: Vec<Vec<T>> = vec![];
                for i in 0..16 {
                    pts.push((0..nd).map(|a| ss[a][(i + 5 * a) % 16].1).collect());
                }
                for a in 0..nd {
                    for s in &ss[a] {
                        pts.push((0..nd).map(|b| if a == b { s.1 } else { ss[b][0].1 }).collect());
                    }
                }
                let limit = most + most / 2 + 250 + if regular { 0 } else { 40 * lg };
                let mut ones = vec![];
                for x in &pts {
                    let c = count(&mut || {
                        let _ = std::hint::black_box(it.one(x));
                    });
                    if c > cap && *small {
                        rep.note("evaluations too long for instruction counts", 1);
                        return;
                    }
                    nst += 1;
                    rep.trace(1);
                    ones.push(c);
                    if *small {
                        most = most.max(c);
                    } else if c > limit {
                        rep.violation(&k, format!("dims {dims:?}, point {x:?}: {c} instructions; at most {most} on the smallest grids"));
                        return;
                    } else {
                        rep.ratio_fast(c as f64 / limit as f64, &k);
                    }
                }
                // batches: the sum of their points, in two orders
                for step in [1usize, 7] {
                    let ix: Vec<usize> = (0..8).map(|i| (i * step) % pts.len()).filter(|&i| it.one(&pts[i]).is_ok()).collect();
                    let cols: Vec<Vec<T>> = (0..nd).map(|a| ix.iter().map(|&i| pts[i][a]).collect()).collect();
                    let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                    let mut out = vec![T::zero(); ix.len()];
                    let c = count(&mut || {
                        let _ = std::hint::black_box(it.batch(&os, &mut out));
                    });
                    let sum: u64 = ix.iter().map(|&i| ones[i]).sum();
                    nst += 1;
                    rep.trace(ix.len());
                    if c > sum + sum / 2 + 300 {
                        rep.violation(&k, format!("dims {dims:?}: a batch of {} costs {c} instructions, the sum of its points is {sum}", ix.len()));
                        return;
                    }
                }
            }
        }
        rep.sample(|| format!("{k}: {nst} evaluations counted, at most {most} instructions on the smallest grids"));
        rep.states_keyed(hash_str(&k), nst);
    });
}

#[derive(Debug)]
enum Inst {
    N(Kind, bool, bool, bool),
    One(Rule, bool),
}

struct Max {
    arith: u64,
    cmp: u64,
}

/// `lg`: sum over axes of log2 of the axis length
fn judge(rep: &Rep, k: &str, small: &mut Max, is_small: bool, regular: bool, lg: u64, c: (u64, u64), what: &dyn Fn() -> String) -> bool {
    rep.trace(1);
    if is_small {
        small.arith = small.arith.max(c.0);
        small.cmp = small.cmp.max(c.1);
        return true;
    }
    let extra = if regular { 8 } else { 16 + 4 * lg };
    // comparisons and arithmetic may be exchanged by a search; the sum is what is bounded
    if c.0 + c.1 > small.arith + small.cmp + extra {
        rep.violation(k, format!("{} arithmetic operations and {} comparisons; at most {} and {} on the smallest grid: {}", c.0, c.1, small.arith, small.cmp, what()));
        return false;
    }
    rep.ratio_fast((c.0 + c.1) as f64 / (small.arith + small.cmp + extra) as f64, k);
    true
}

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

fn build(kind: Kind, regular: bool, lin: bool, nd: usize, dims: &[usize], sp: Spacing) -> &'static Problem<W> {
    Box::leak(Box::new(problem::<W>(kind, regular, lin, &vec![sp; nd], dims, 3)))
}

fn run(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize, rec: bool) {
    let k = format!("{kind:?}/{}/lin={lin}/{nd}D/{}", if regular { "regular" } else { "rectilinear" }, if rec { "recursive" } else { "flat" });
    rep.case(&k, || {
        let min = kind.min_n();
        let heavy = kind == Kind::Cubic && nd >= 6 && !rep.thorough;
        let base: usize = min.pow(nd as u32 - 1);
        let long = ((1usize << if rep.thorough { 20 } else { 18 }) / base).clamp(min + 3, 200_000);
        let mut sizes: Vec<(Vec<usize>, bool)> = vec![(vec![min; nd], true)];
        // the smallest grid that has interior cells on every axis
        sizes.push((vec![min + 1; nd], true));
        if nd > 4 {
            for a in 0..nd {
                let mut d = vec![min; nd];
                d[a] = min + 1;
                sizes.push((d, true));
            }
        }
        for a in 0..nd {
            for l in [min + 2, 17, 100, 1000, long] {
                if l <= long && (!heavy || (l == long && (a == 0 || a == nd / 2 || a == nd - 1))) {
                    let mut d = vec![min; nd];
                    d[a] = l;
                    sizes.push((d, false));
                }
            }
        }
        if nd == 2 {
            sizes.push((vec![400, 401], false));
        }
        if nd == 3 {
            sizes.push((vec![51, 52, 53], false));
        }
        let mut small = Max { arith: 0, cmp: 0 };
        let mut nst = 0usize;
        let sps: Vec<Spacing> = if regular { vec![Spacing::EvenDyadic] } else { vec![Spacing::EvenGeneric, Spacing::UnevenGeneric] };
        for (dims, is_small) in &sizes {
            for &sp in &sps {
                let p = build(kind, regular, lin, nd, dims, sp);
                let it = make(p, rec).unwrap();
                let lg: u64 = dims.iter().map(|&n| log2(n)).sum();
                let gr: Vec<Vec<W>> = (0..nd).map(|a| axis::<W>(sp, dims[a], a).2).collect();
                let ss: Vec<Vec<(&str, W)>> = gr.iter().map(|g| spots(g)).collect();
                let m = ss.iter().map(|s| s.len()).min().unwrap();
                let mut pts: Vec<(String, Vec<W>)> = vec![];
                for i in 0..m {
                    pts.push((format!("{} on every axis", ss[0][i].0), (0..nd).map(|a| ss[a][i].1).collect()));
                    pts.push((format!("rotating from {}", ss[0][i].0), (0..nd).map(|a| ss[a][(i + 5 * a) % m].1).collect()));
                }
                for a in (0..nd).filter(|a| !heavy || *a == 0 || *a == nd - 1) {
                    for s in &ss[a] {
                        pts.push((format!("{} on axis {a}", s.0), (0..nd).map(|b| if a == b { s.1 } else { ss[b][0].1 }).collect()));
                    }
                }
                if nd == 2 || (nd == 3 && *is_small) {
                    for c in cart(&(0..nd).map(|a| (0..ss[a].len()).collect::<Vec<_>>()).collect::<Vec<_>>()) {
                        pts.push(("product".into(), c.iter().enumerate().map(|(a, &i)| ss[a][i].1).collect()));
                    }
                }
                let mut ones: Vec<(u64, u64)> = vec![];
                for (w, x) in &pts {
                    nst += 1;
                    let c = cost(|| {
                        let _ = it.one(x);
                    });
                    ones.push(c);
                    if !judge(rep, &k, &mut small, *is_small, regular, lg, c, &|| format!("dims {dims:?}, {w}: {:?}", x.iter().map(|v| v.0).collect::<Vec<_>>())) {
                        return;
                    }
                }
                // ordered pairs of points, one after the other and as a batch: nothing carries over
                let keep: Vec<usize> = (0..pts.len()).filter(|&i| pts[i].1.iter().all(|v| !v.0.is_nan())).take(if heavy { 6 } else if nd <= 4 { 40 } else { 14 }).collect();
                for &i in &keep {
                    for &j in &keep {
                        nst += 1;
                        let _ = it.one(&pts[i].1);
                        let c = cost(|| {
                            let _ = it.one(&pts[j].1);
                        });
                        let cols: Vec<Vec<W>> = (0..nd).map(|a| vec![pts[i].1[a], pts[j].1[a]]).collect();
                        let os: Vec<&[W]> = cols.iter().map(|c| &c[..]).collect();
                        let mut out = [W(0.0); 2];
                        let mut ok = true;
                        let b = cost(|| ok = it.batch(&os, &mut out).is_ok());
                        rep.trace(3);
                        let sum = ones[i].0 + ones[i].1 + ones[j].0 + ones[j].1;
                        if c.0 + c.1 > ones[j].0 + ones[j].1 + 8 || (ok && b.0 + b.1 > sum + 16) {
                            rep.violation(&k, format!("dims {dims:?}: point {:?} after {:?} costs {c:?} instead of {:?}; both in a batch cost {b:?}", pts[j].1, pts[i].1, ones[j]));
                            return;
                        }
                    }
                }
                // long batches cost the sum of their points
                for l in [0usize, 1, 3, 8, 33, 128, 1000, 4097] {
                    if l * min.pow(nd as u32) > if rep.thorough { 2_000_000 } else { 100_000 } && l > 3 {
                        continue;
                    }
                    for rot in 0..2 {
                        let ix: Vec<usize> = (0..l).map(|i| keep[if rot == 0 { i % keep.len() } else { (i * i) % keep.len() }]).collect();
                        let cols: Vec<Vec<W>> = (0..nd).map(|a| ix.iter().map(|&i| pts[i].1[a]).collect()).collect();
                        let os: Vec<&[W]> = cols.iter().map(|c| &c[..]).collect();
                        let mut out = vec![W(0.0); l];
                        let c = cost(|| {
                            let _ = it.batch(&os, &mut out);
                        });
                        let sum: u64 = ix.iter().map(|&i| ones[i].0 + ones[i].1).sum();
                        nst += 1;
                        rep.trace(l);
                        if c.0 + c.1 > sum + 16 {
                            rep.violation(&k, format!("dims {dims:?}: a batch of {l} costs {c:?}, the sum of its points is {sum}"));
                            return;
                        }
                        // the same through the functions, which construct the interpolator first
                        for e in entries(kind, nd) {
                            if !matches!(e, Entry::Fn | Entry::FnAlloc | Entry::RecFn | Entry::RecFnAlloc) || l < 2 || rot == 1 || (heavy && l > 1) {
                                continue;
                            }
                            let z: Vec<&[W]> = vec![&[]; nd];
                            let one: Vec<&[W]> = os.iter().map(|o| &o[..1]).collect();
                            let c0 = cost(|| {
                                let _ = eval(p, e, &z, &mut []);
                            });
                            let c1 = cost(|| {
                                let _ = eval(p, e, &one, &mut [W(0.0)]);
                            });
                            let cl = cost(|| {
                                let _ = eval(p, e, &os, &mut out);
                            });
                            rep.trace(l + 1);
                            let t = |c: (u64, u64)| c.0 + c.1;
                            // per point at most the dearest point of the smallest grid (plus the search)
                            let per = small.arith + small.cmp + if regular { 8 } else { 16 + 4 * lg };
                            if t(cl) > t(c0) + l as u64 * per + 16 || t(c1) > t(c0) + per + 16 {
                                rep.violation(&k, format!("{e:?}, dims {dims:?}: no points cost {c0:?}, one {c1:?}, {l} {cl:?}; a point costs at most {per}"));
                                return;
                            }
                        }
                    }
                }
            }
        }
        rep.sample(|| format!("{k}: {nst} measurements, at most {} arithmetic operations and {} comparisons per point on the smallest grid", small.arith, small.cmp));
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn one(rep: &Rep, regular: bool) {
    let k = format!("one_dim/{}", if regular { "regular" } else { "rectilinear" });
    rep.case(&k, || {
        let mut small: HashMap<Rule, Max> = HashMap::new();
        let mut nst = 0;
        for n in [2usize, 3, 4, 5, 17, 64, 1000, 65_537, 1_000_003] {
            let (s, h, g) = axis::<W>(if regular { Spacing::EvenDyadic } else { Spacing::UnevenDyadic }, n, 0);
            let vals = dense::<W>(n, 1);
            let gr = if regular { G1::Reg(s, h) } else { G1::Rect(&g) };
            let ss = spots(&g);
            let z = |rule, how| {
                cost(|| {
                    let _ = eval1(&gr, &vals, rule, how, &[], &mut []);
                })
            };
            for rule in Rule::ALL {
                let sm = small.entry(rule).or_insert(Max { arith: 0, cmp: 0 });
                for how in [How::Batch, How::One, How::Alloc] {
                    let c0 = z(rule, how);
                    let mut ones = vec![];
                    for (w, x) in &ss {
                        nst += 1;
                        let c = cost(|| {
                            let _ = eval1(&gr, &vals, rule, how, &[*x], &mut [W(0.0)]);
                        });
                        let c = (c.0 - c0.0, c.1 - c0.1);
                        ones.push(c);
                        if !judge(rep, &k, sm, n <= 4, regular, log2(n), c, &|| format!("{rule:?} {how:?}, {n} nodes, {w} {:?}", x.0)) {
                            return;
                        }
                    }
                    let good: Vec<usize> = (0..ss.len()).filter(|&i| ss[i].1.0.is_finite()).collect();
                    for l in [2usize, 3, 50, 1000, 20_000] {
                        let ix: Vec<usize> = (0..l).map(|i| good[(i * i + i / 7) % good.len()]).collect();
                        let xs: Vec<W> = ix.iter().map(|&i| ss[i].1).collect();
                        let mut out = vec![W(0.0); l];
                        let c = cost(|| {
                            let _ = eval1(&gr, &vals, rule, how, &xs, &mut out);
                        });
                        let sum: u64 = ix.iter().map(|&i| ones[i].0 + ones[i].1).sum();
                        nst += 1;
                        rep.trace(l);
                        if c.0 + c.1 > sum + c0.0 + c0.1 + 16 {
                            rep.violation(&k, format!("{rule:?} {how:?}, {n} nodes: a batch of {l} costs {c:?}, the sum of its points is {sum}"));
                            return;
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn bounds(rep: &Rep, nd: usize) {
    let k = format!("check_bounds/{nd}D");
    rep.case(&k, || {
        let mut nst = 0;
        for f in 0..4usize {
            let mut per = 0u64;
            let mut fix = 0u64;
            for n in [2usize, 3, 10, 1000, 50_000] {
                let ax: Vec<(W, W, Vec<W>)> = (0..nd).map(|a| axis::<W>(Spacing::EvenGeneric, n, a)).collect();
                let dims = vec![n; nd];
                let st: Vec<W> = ax.iter().map(|x| x.0).collect();
                let sp: Vec<W> = ax.iter().map(|x| x.1).collect();
                let gs: Vec<&[W]> = ax.iter().map(|x| &x.2[..]).collect();
                for l in [0usize, 1, 2, 64, 1000, 5000] {
                    for off in 0..3usize {
                        let cols: Vec<Vec<W>> = (0..nd)
                            .map(|a| {
                                let s = spots(&ax[a].2);
                                (0..l).map(|i| if off == 0 { s[0].1 } else { s[(i + 3 * off + a) % s.len()].1 }).collect()
                            })
                            .collect();
                        let os: Vec<&[W]> = cols.iter().map(|c| &c[..]).collect();
                        let mut flags = vec![false; nd];
                        let c = cost(|| {
                            let _ = match f {
                                0 => multilinear::regular::check_bounds(&dims, &st, &sp, &os, W(1e-3), &mut flags),
                                1 => multilinear::regular_recursive::check_bounds(&dims, &st, &sp, &os, W(1e-3), &mut flags),
                                2 => multilinear::rectilinear::check_bounds(&gs, &os, W(1e-3), &mut flags),
                                _ => multilinear::rectilinear_recursive::check_bounds(&gs, &os, W(1e-3), &mut flags),
                            };
                        });
                        let c = c.0 + c.1;
                        nst += 1;
                        rep.trace(l);
                        if n <= 3 {
                            if l == 0 {
                                fix = fix.max(c);
                            } else {
                                per = per.max(c.saturating_sub(fix).div_ceil(l as u64));
                            }
                        } else if c > fix + per * l as u64 + 16 {
                            rep.violation(&k, format!("function {f}, {n} nodes per axis, {l} points: {c} operations; at most {fix} + {per} per point on the smallest grid"));
                            return;
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn main() {
    let rep = Rep::new("C16");
    let mut v = vec![];
    for (k, r, l) in methods() {
        for nd in 1..=k.max_dims() {
            if nd <= k.flat_max() {
                v.push((k, r, l, nd, false));
            }
            if k != Kind::Nearest {
                v.push((k, r, l, nd, true));
            }
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == Kind::Cubic, x.3)));
    rep.par(&v, |&(k, r, l, nd, rec)| run(&rep, k, r, l, nd, rec));
    rep.par(&(1..=8usize).collect::<Vec<_>>(), |&nd| bounds(&rep, nd));
    rep.par(&[true, false], |&r| one(&rep, r));
    if vh::step::available() {
        let mut w: Vec<(Inst, usize)> = vec![];
        for &(k, r, l, nd, rec) in &v {
            if nd <= if rep.thorough { 8 } else { 6 } {
                w.push((Inst::N(k, r, l, rec), nd));
            }
        }
        for r in Rule::ALL {
            w.push((Inst::One(r, true), 1));
            w.push((Inst::One(r, false), 1));
        }
        rep.par(&w, |(i, nd)| {
            instructions::<f64>(&rep, i, *nd);
            if *nd <= 2 || rep.thorough {
                instructions::<f32>(&rep, i, *nd);
            }
        });
    } else {
        rep.note("single-stepping unavailable", 1);
    }
    rep.finish()
}
