//! C18: build features and the element type change only rounding. This program runs in every build;
//! the digests (errors, flags, acceptance) are compared between builds by the driver.
use interpn::multilinear;
use vh::conf::*;
use vh::dev::*;
use vh::gen_::*;
use vh::iface::*;
use vh::num::{DD, Elt};
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

fn mixh(h: u64, s: &str) -> u64 {
    h.wrapping_mul(0x100000001b3) ^ hash_str(s)
}

/// Values against the model.
fn values<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize) {
    let min = kind.min_n();
    let heavy = kind == Kind::Cubic && nd >= 6;
    let mut dimss = vec![vec![min; nd], (0..nd).map(|a| min + (nd <= 4 || a == nd / 2) as usize).collect::<Vec<_>>()];
    if nd == 1 {
        dimss.extend([vec![min + 2], vec![min + 3], vec![9], vec![33], vec![300]]);
    }
    if nd == 2 {
        dimss.extend([vec![min + 2, min], vec![min, min + 3], vec![min + 3, min + 2]]);
    }
    let mut sps = mixes(regular, nd);
    if nd > 3 {
        sps.truncate(2);
    }
    for dims in &dimss {
        for sp in &sps {
            let exact = sp.iter().all(|s| s.exact());
            let p = problem::<T>(kind, regular, lin, sp, dims, 7);
            let ents: Vec<Entry> = if heavy { impls(kind, nd) } else if nd <= 3 { entries(kind, nd) } else { few(kind, nd) };
            let ents: Vec<Entry> = ents.into_iter().filter(|e| !matches!(e, Entry::FnAlloc | Entry::RecFnAlloc)).collect();
            if nd <= 4 {
                let lv = match nd {
                    1 | 2 => Level::Full,
                    3 => if min == 2 { Level::Mid } else { Level::Core },
                    _ => Level::Sides,
                };
                let pos: Vec<Vec<T>> = (0..nd).map(|a| positions(&p.grids[a], lv)).collect();
                check_product(rep, &p, &pos, &ents, &[Order::C, Order::Rev], exact, &format!("values/{}", sp_tag(sp)));
            } else {
                // every pair of axes
                for a in 0..nd {
                    for b in a + 1..nd {
                        if heavy && (a + b) % 2 == 0 && !rep.thorough {
                            continue;
                        }
                        let pos: Vec<Vec<T>> = (0..nd)
                            .map(|c| {
                                let v = positions(&p.grids[c], if heavy { Level::Sides } else { Level::Core });
                                if c == a || c == b { v } else { let i = (a + 2 * b + c) % v.len(); vec![v[i]] }
                            })
                            .collect();
                        check_product(rep, &p, &pos, &ents, &[Order::C], exact, &format!("values/{}/{a}{b}", sp_tag(sp)));
                    }
                }
            }
        }
    }
}

fn ents18(kind: Kind, nd: usize) -> Vec<Entry> {
    let mut ents: Vec<Entry> = vec![Entry::Fn];
    if kind != Kind::Nearest {
        ents.push(Entry::RecFn);
        for m in [nd.saturating_sub(1), nd, 8, 10] {
            if (1..=8).contains(&m) || m == 10 {
                ents.push(Entry::Rec(m));
            }
        }
    }
    if nd >= 1 {
        ents.push(Entry::Flat);
    }
    ents
}

/// Errors and acceptance of malformed and well-formed arguments: a digest, equal for both element types.
fn errors<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize, l: usize) -> Option<u64> {
    let k = format!("errors/{kind:?}/{}/{}/lin={lin}/{nd}D/{l}", if regular { "regular" } else { "rectilinear" }, T::NAME);
    let mut res = None;
    rep.case(&k, || {
        let b = base::<T>(kind, regular, lin, nd, l, false);
        let ents = ents18(kind, nd);
        let ds = devs(nd, regular);
        let mut h = 1u64;
        let mut n = 0usize;
        let big = b.p.vals.len() > 1000;
        for (i, &d1) in ds.iter().enumerate() {
            for d2 in if big { vec![Dev::None] } else { std::iter::once(Dev::None).chain(ds[i + 1..].iter().copied()).collect() } {
                for f in [Fit::No, Fit::All] {
                    if f == Fit::All && !matches!(d1, Dev::Nd(_) | Dev::Dim(..)) {
                        continue;
                    }
                    let mut r = b.clone();
                    apply(&mut r, d1, kind.min_n());
                    fit(&mut r, f);
                    apply(&mut r, d2, kind.min_n());
                    if r.p.vals.len() > 100_000 {
                        continue;
                    }
                    let os: Vec<&[T]> = r.obs.iter().map(|o| &o[..]).collect();
                    for &e in &ents {
                        if e == Entry::Flat && r.p.regular && (r.p.starts.len() != r.p.dims.len() || r.p.steps.len() != r.p.dims.len()) {
                            continue;
                        }
                        let mut out = vec![T::zero(); r.out];
                        let g = eval(&r.p, e, &os, &mut out);
                        h = mixh(h, &format!("{g:?}"));
                        n += 1;
                    }
                }
            }
        }
        rep.traces.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
        rep.evals.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
        rep.states_keyed(hash_str(&k), n);
        rep.sample(|| format!("{k}: {n} malformed calls"));
        rep.digest(&k, h);
        res = Some(h);
    });
    res
}

/// Errors on special coordinates and flags of the bounds check.
fn special<T: Elt>(rep: &Rep, regular: bool, nd: usize) {
    let k = format!("special/{}/{}/{nd}D", if regular { "regular" } else { "rectilinear" }, T::NAME);
    rep.case(&k, || {
        let mut h = 1u64;
        let mut n = 0;
        let sp = [T::nan(), T::infinity(), T::neg_infinity(), T::max_value(), -T::max_value(), T::of(1e30), T::of(-1e30), T::zero(), T::of(3e9), T::of(-3e9), T::of(1e19), T::of(-1e19), T::of(0.3)];
        for kind in Kind::ALL {
            if nd > kind.max_dims() || (kind == Kind::Cubic && nd > 5) {
                continue;
            }
            let p = problem::<T>(kind, regular, true, &vec![Spacing::EvenDyadic; nd], &vec![kind.min_n() + 1; nd], 3);
            for e in ents18(kind, nd) {
                for x in sp {
                    for a in 0..nd {
                        let v: Vec<T> = (0..nd).map(|b| if a == b { x } else { T::of(0.25) }).collect();
                        let os: Vec<&[T]> = v.iter().map(std::slice::from_ref).collect();
                        let mut out = [T::zero()];
                        let r = eval(&p, e, &os, &mut out);
                        h = mixh(h, &format!("{r:?} {}", out[0].is_nan() && x.is_finite()));
                        n += 1;
                    }
                }
            }
            // flags
            let st = &p.starts;
            let gs: Vec<&[T]> = p.grids.iter().map(|g| &g[..]).collect();
            for x in sp.iter().skip(1) {
                for a in 0..nd {
                    let v: Vec<T> = (0..nd).map(|b| if a == b { *x } else { gs[b][0] }).collect();
                    let os: Vec<&[T]> = v.iter().map(std::slice::from_ref).collect();
                    let mut f = vec![false; nd];
                    let r = if regular { multilinear::regular::check_bounds(&p.dims, st, &p.steps, &os, T::of(0.25), &mut f) } else { multilinear::rectilinear::check_bounds(&gs, &os, T::of(0.25), &mut f) };
                    h = mixh(h, &format!("{r:?} {f:?}"));
                    let r = if regular { multilinear::regular_recursive::check_bounds(&p.dims, st, &p.steps, &os, T::of(0.25), &mut f) } else { multilinear::rectilinear_recursive::check_bounds(&gs, &os, T::of(0.25), &mut f) };
                    h = mixh(h, &format!("{r:?} {f:?}"));
                    n += 2;
                }
            }
        }
        rep.traces.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
        rep.evals.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
        rep.states_keyed(hash_str(&k), n);
        rep.digest(&k, h);
    });
}

fn one<T: Elt>(rep: &Rep, sp: Spacing, regular: bool, n: usize) {
    let k = format!("one_dim/{}/{sp:?}/{}/{n}", T::NAME, if regular { "regular" } else { "rectilinear" });
    rep.case(&k, || {
        let (s, h, g) = axis::<T>(sp, n, n);
        let vals = dense::<T>(n, 3);
        let nodes: Vec<DD> = if regular { (0..n).map(|i| s.dd() + h.dd() * DD::from_f64(i as f64)).collect() } else { g.iter().map(|x| x.dd()).collect() };
        let vd: Vec<DD> = vals.iter().map(|v| v.dd()).collect();
        let my = vd.iter().map(|v| v.hi.abs()).fold(0.0, f64::max);
        let gr = if regular { G1::Reg(s, h) } else { G1::Rect(&g) };
        let mut xs = positions(&g, Level::Full);
        let span = g[n - 1] - g[0];
        xs.extend([g[0] - span * T::of(1e6), g[n - 1] + span * T::of(1e6)]);
        let mut hh = 1u64;
        for rule in Rule::ALL {
            for how in [How::Batch, How::One] {
                let mut out = vec![T::nan(); xs.len()];
                if let Err(e) = eval1(&gr, &vals, rule, how, &xs, &mut out) {
                    rep.violation(&k, format!("{rule:?}: {e}"));
                    return;
                }
                for (x, o) in xs.iter().zip(&out) {
                    let (v, err, amb) = ref1(rule, &nodes, &vd, my, x.dd(), T::EPS, !regular, sp.exact());
                    if !amb && !((o.dd() - v).hi.abs() <= T::EPS * err) {
                        rep.violation(&k, format!("{rule:?} {how:?} at {x:?}: {o:?}, expected {:?}", v.hi));
                        return;
                    }
                }
                rep.trace(out.len());
                // errors
                for bad in [T::nan(), T::infinity(), T::neg_infinity(), T::of(1e30), T::of(-1e30)] {
                    hh = mixh(hh, &format!("{:?}", eval1(&gr, &vals, rule, how, &[bad], &mut [T::zero()])));
                }
                hh = mixh(hh, &format!("{:?}", eval1(&gr, &vals[..1], rule, how, &xs, &mut out)));
                if how == How::Batch {
                    hh = mixh(hh, &format!("{:?}", eval1(&gr, &vals, rule, how, &xs[1..], &mut out)));
                }
            }
        }
        rep.digest(&k, hh);
        rep.states_keyed(hash_str(&k), xs.len() * 5);
    });
}

fn main() {
    let rep = Rep::new("C18");
    // four builds run at the same time
    rep.set_threads(4);
    let mut v = vec![];
    for (k, r, l) in methods() {
        for nd in 1..=k.max_dims() {
            v.push((k, r, l, nd));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == Kind::Cubic, x.3)));
    rep.par(&v, |&(k, r, l, nd)| {
        values::<f64>(&rep, k, r, l, nd);
        values::<f32>(&rep, k, r, l, nd);
    });
    let mut w = vec![];
    for (k, r, l) in methods() {
        for nd in 0..=if k == Kind::Cubic { 6 } else { 10 } {
            for n in [0usize, 1, 3] {
                w.push((k, r, l, nd, n));
            }
        }
    }
    rep.par(&w, |&(k, r, l, nd, n)| {
        let a = errors::<f64>(&rep, k, r, l, nd, n);
        let b = errors::<f32>(&rep, k, r, l, nd, n);
        if let (Some(a), Some(b)) = (a, b)
            && a != b
        {
            rep.violation(&format!("errors/{k:?}/{}/f32/lin={l}/{nd}D/{n}", if r { "regular" } else { "rectilinear" }), "f32 and f64 give different errors for the same malformed calls".into());
        }
    });
    let mut u = vec![];
    for r in [true, false] {
        for nd in 1..=8usize {
            u.push((r, nd));
        }
    }
    rep.par(&u, |&(r, nd)| {
        special::<f64>(&rep, r, nd);
        special::<f32>(&rep, r, nd);
    });
    let mut o = vec![];
    for sp in Spacing::ALL {
        for r in [true, false] {
            for n in [2usize, 3, 4, 5, 17, 300] {
                if !r || sp.even() {
                    o.push((sp, r, n));
                }
            }
        }
    }
    rep.par(&o, |&(sp, r, n)| {
        one::<f64>(&rep, sp, r, n);
        one::<f32>(&rep, sp, r, n);
    });
    rep.finish()
}
