//! C17: no float makes a call panic; NaN coordinates never give a number; bad table entries stay local.
use interpn::multilinear;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vh::gen_::*;
use vh::hood::*;
use vh::iface::*;
use vh::num::Elt;
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

/// Special floating-point values.
fn specials<T: Elt>(full: bool) -> Vec<T> {
    let m = T::max_value();
    let tiny = T::zero().next_up_();
    let mut v = vec![T::nan(), T::infinity(), T::neg_infinity(), m, -m, T::min_positive_value(), tiny, -tiny, T::zero(), -T::zero(), T::of(1e30), T::of(-1e30)];
    if full {
        v.extend([-T::nan(), -T::min_positive_value(), m / T::of(2.0), -m / T::of(2.0), m.sqrt(), -m.sqrt(), T::one() / m, T::epsilon(), T::of(1e-30)]);
        for e in [31, 32, 53, 63, 64] {
            let x = T::of(2.0).powi(e);
            v.extend([x, -x, x.next_down_(), x.next_up_()]);
        }
        v.extend([T::of(0.3), T::of(1.0), T::of(-2.5)]);
    }
    v
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

/// One point through one entry: returns, does not panic, and a NaN coordinate gives an error or NaN.
fn point<T: Elt>(rep: &Rep, k: &str, p: &Problem<T>, gs: &[&[T]], e: Entry, x: &[T], what: &str) -> bool {
    let cols: Vec<&[T]> = x.iter().map(std::slice::from_ref).collect();
    let mut out = [T::of(0.125)];
    let r = catch_unwind(AssertUnwindSafe(|| if p.regular { eval(p, e, &cols, &mut out) } else { eval_rect_with(p, gs, e, &cols, &mut out) }));
    let info = |s: String| {
        let g: Vec<String> = if p.regular { p.starts.iter().zip(&p.steps).zip(&p.dims).map(|((s, h), n)| format!("start {s:?} step {h:?} x{n}")).collect() } else { p.grids.iter().map(|g| format!("{:?}", &g[..g.len().min(6)])).collect() };
        rep.violation(k, format!("{e:?} {what}: {s}; coordinates {x:?}, grid {g:?}"))
    };
    match r {
        Err(m) => {
            info(format!("panic: {}", msg(m)));
            return false;
        }
        Ok(Ok(())) => {
            if x.iter().any(|v| v.is_nan()) && !out[0].is_nan() {
                info(format!("a NaN coordinate gives the number {:?}", out[0]));
                return false;
            }
        }
        Ok(Err(_)) => {}
    }
    true
}

fn key(what: &str, kind: Kind, regular: bool, lin: bool, t: &str, rest: &str) -> String {
    format!("{what}/{kind:?}/{}/{t}/lin={lin}/{rest}", if regular { "regular" } else { "rectilinear" })
}

/// Ordinary grids, special coordinates.
fn coords<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize) {
    let k = key("coordinates", kind, regular, lin, T::NAME, &format!("{nd}D"));
    rep.case(&k, || {
        let min = kind.min_n();
        let sp: Vec<Spacing> = (0..nd).map(|a| allowed(regular)[a % allowed(regular).len()]).collect();
        let mut nst = 0usize;
        for dims in [vec![min; nd], (0..nd).map(|a| min + (nd <= 3 || a == 0) as usize).collect()] {
            let p = problem::<T>(kind, regular, lin, &sp, &dims, 3);
            let gs: Vec<&[T]> = p.grids.iter().map(|g| &g[..]).collect();
            let s = specials::<T>(true);
            let s2 = specials::<T>(false);
            let mid: Vec<T> = (0..nd).map(|a| axis::<T>(sp[a], dims[a], a).2[0]).collect();
            let mut pts: Vec<Vec<T>> = vec![];
            if nd <= 2 {
                pts = power(&s, nd);
            } else if nd == 3 {
                pts = power(&s2, nd);
            }
            for a in 0..nd {
                for b in a + 1..nd {
                    for x in &s2 {
                        for y in &s2 {
                            let mut v = mid.clone();
                            v[a] = *x;
                            v[b] = *y;
                            pts.push(v);
                        }
                    }
                }
                for x in &s {
                    let mut v = mid.clone();
                    v[a] = *x;
                    pts.push(v);
                }
            }
            for x in &s {
                pts.push(vec![*x; nd]);
            }
            if kind == Kind::Cubic && nd >= 6 && !rep.thorough {
                // milliseconds each: every special on each axis and on all, NaN next to every special on every pair
                pts.retain(|v| v.iter().zip(&mid).filter(|(a, b)| a.bits() != b.bits()).count() <= 1 || v.iter().all(|x| x.bits() == v[0].bits()));
            }
            let es: Vec<Entry> = entries(kind, nd).into_iter().filter(|e| if nd <= 2 { true } else { matches!(e, Entry::Fn | Entry::Flat | Entry::RecFn | Entry::RecOne(10)) && !(nd >= 6 && kind == Kind::Cubic && *e == Entry::Fn) }).collect();
            for x in &pts {
                nst += 1;
                for &e in &es {
                    if !point(rep, &k, &p, &gs, e, x, "") {
                        return;
                    }
                }
            }
            rep.traces.fetch_add((pts.len() * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
            rep.evals.fetch_add((pts.len() * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
            rep.transitions.fetch_add((pts.len() * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
            // NaN somewhere in a batch: an error, or NaN at exactly that point
            for l in if kind == Kind::Cubic && nd >= 6 && !rep.thorough { vec![1usize, 2] } else { vec![1, 2, 3, 7] } {
                for i in 0..l {
                    for a in 0..nd {
                        let cols: Vec<Vec<T>> = (0..nd).map(|b| (0..l).map(|j| if i == j && a == b { T::nan() } else { mid[b] }).collect()).collect();
                        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
                        for &e in &es {
                            let mut out = vec![T::of(0.125); l];
                            nst += 1;
                            match catch_unwind(AssertUnwindSafe(|| eval(&p, e, &os, &mut out))) {
                                Err(m) => {
                                    rep.violation(&k, format!("{e:?}: panic on NaN at point {i} of {l}, axis {a}: {}", msg(m)));
                                    return;
                                }
                                Ok(Ok(())) if !out[i].is_nan() => {
                                    rep.violation(&k, format!("{e:?}: NaN at point {i} of {l}, axis {a} gives {:?}", out[i]));
                                    return;
                                }
                                _ => {}
                            }
                            rep.trace(l);
                        }
                    }
                }
            }
        }
        rep.sample(|| format!("{k}: {nst} coordinate vectors over {} special values", specials::<T>(true).len()));
        rep.states_keyed(hash_str(&k), nst);
    });
}

/// Special starts and steps, or grids made of special values, that the constructor accepts.
fn grids<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize) {
    let k = key("grid", kind, regular, lin, T::NAME, &format!("{nd}D"));
    rep.case(&k, || {
        let min = kind.min_n();
        let mut nst = 0usize;
        let s = specials::<T>(true);
        let few = specials::<T>(false);
        // (start, step) or nodes of the special axis
        let mut axes: Vec<(T, T, Vec<T>)> = vec![];
        if regular {
            for a in &s {
                for b in &s {
                    if *b > T::zero() {
                        axes.push((*a, *b, vec![]));
                    }
                }
            }
        } else {
            let mut al = few.clone();
            al.extend([T::of(0.3), T::of(1.0), T::of(-2.5)]);
            // the first two must increase for the constructor; the rest is anything
            for a in &al {
                for b in &al {
                    if *b > *a {
                        let rest: Vec<Vec<T>> = if min == 2 { let mut r = vec![vec![]]; r.extend(power(&al, 1)); if nd == 1 { r.extend(power(&al, 2)) } r } else { let mut r = power(&al, 2); if nd > 1 { r.retain(|v| !(v[0] < *b)) } if nd == 1 && rep.thorough { r.extend(power(&al, 3)) } r };
                        for r in rest {
                            let mut g = vec![*a, *b];
                            g.extend(r);
                            axes.push((T::zero(), T::one(), g));
                        }
                    }
                }
            }
        }
        let es: Vec<Entry> = impls(kind, nd);
        for (i, (st, sp, g)) in axes.iter().enumerate() {
            for n in if regular { vec![min, min + 1, 1000 / min.pow(nd as u32 - 1).min(100)] } else { vec![g.len()] } {
                let place = i % nd;
                let dims: Vec<usize> = (0..nd).map(|a| if a == place { n } else { min }).collect();
                let p = Problem::<T> {
                    kind,
                    regular,
                    lin,
                    starts: (0..nd).map(|a| if a == place { *st } else { T::zero() }).collect(),
                    steps: (0..nd).map(|a| if a == place { *sp } else { T::one() }).collect(),
                    grids: if regular { vec![] } else { (0..nd).map(|a| if a == place { g.clone() } else { (0..min).map(|i| T::of(i as f64)).collect() }).collect() },
                    vals: dense(dims.iter().product(), 5),
                    dims,
                };
                let gs: Vec<&[T]> = p.grids.iter().map(|g| &g[..]).collect();
                let mut xs = if nd == 1 { s.clone() } else { few.clone() };
                if regular {
                    for f in [0.0, 0.5, 1.0, 1.5, n as f64 - 1.0, n as f64, -0.5, -3.0] {
                        xs.push(*st + *sp * T::of(f));
                    }
                } else {
                    for w in g.windows(2) {
                        xs.push(w[0]);
                        xs.push(w[0] + (w[1] - w[0]) * T::of(0.5));
                    }
                    xs.push(g[g.len() - 1]);
                }
                for x in &xs {
                    for other in if nd == 1 { vec![T::zero()] } else { vec![T::of(0.25), T::nan(), T::infinity()] } {
                        let v: Vec<T> = (0..nd).map(|a| if a == place { *x } else { other }).collect();
                        nst += 1;
                        for &e in &es {
                            if !point(rep, &k, &p, &gs, e, &v, "") {
                                return;
                            }
                        }
                    }
                }
                // the bounds check survives the same
                let xv = vec![xs.clone(); nd];
                let os: Vec<&[T]> = xv.iter().map(|c| &c[..]).collect();
                for tol in [T::zero(), T::of(1e-3), T::infinity(), T::nan(), -T::one(), T::max_value()] {
                    let mut f = vec![false; nd];
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let _ = if regular { multilinear::regular::check_bounds(&p.dims, &p.starts, &p.steps, &os, tol, &mut f) } else { multilinear::rectilinear::check_bounds(&gs, &os, tol, &mut f) };
                        let _ = if regular { multilinear::regular_recursive::check_bounds(&p.dims, &p.starts, &p.steps, &os, tol, &mut f) } else { multilinear::rectilinear_recursive::check_bounds(&gs, &os, tol, &mut f) };
                    }));
                    if let Err(m) = r {
                        rep.violation(&k, format!("check_bounds panics: {}; starts {:?} steps {:?} grids {:?}", msg(m), p.starts, p.steps, p.grids));
                        return;
                    }
                }
            }
        }
        rep.traces.fetch_add((nst * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
        rep.evals.fetch_add((nst * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
        rep.transitions.fetch_add((nst * es.len()) as u64, std::sync::atomic::Ordering::Relaxed);
        rep.sample(|| format!("{k}: {} special axes, {nst} coordinate vectors", axes.len()));
        rep.states_keyed(hash_str(&k), nst);
    });
}

/// One special table entry at every place: only points whose neighbourhood holds it may change.
fn table<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, dims: &[usize], si: usize) {
    let nd = dims.len();
    let sp: Vec<Spacing> = (0..nd).map(|a| allowed(regular)[(a + si) % allowed(regular).len()]).collect();
    let exact = sp.iter().all(|s| s.exact());
    let k = key("table", kind, regular, lin, T::NAME, &format!("{dims:?}/{}", sp_tag(&sp)).replace(' ', ""));
    rep.case(&k, || {
        let p = problem::<T>(kind, regular, lin, &sp, dims, 3);
        let cls: Vec<Vec<Cls<T>>> = (0..nd)
            .map(|a| {
                let mut c = classes(kind, &axis::<T>(sp[a], dims[a], a).2, &ref_nodes(&p, a), exact);
                if nd > 2 {
                    c.iter_mut().for_each(|c| c.xs.truncate(1));
                    if kind == Kind::Nearest {
                        // every position is its own class there: the first, second and last of each node suffice
                        let n = c.len();
                        let mut i = 0;
                        c.retain(|_| { i += 1; i == 1 || i == n || i % 5 == 0 });
                    }
                    if kind == Kind::Cubic && nd > 3 {
                        let n = c.len();
                        let mut i = 0;
                        c.retain(|_| { i += 1; i == 1 || i == n || i == n / 2 });
                    }
                }
                c
            })
            .collect();
        // flat list of positions per axis
        let pos: Vec<Vec<(T, usize, usize)>> = cls.iter().map(|c| c.iter().flat_map(|c| c.xs.iter().map(|x| (*x, c.lo, c.hi))).collect()).collect();
        let combos = cart(&pos.iter().map(|p| (0..p.len()).collect::<Vec<_>>()).collect::<Vec<_>>());
        let cols: Vec<Vec<T>> = (0..nd).map(|a| combos.iter().map(|c| pos[a][c[a]].0).collect()).collect();
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let bad = [T::nan(), T::infinity(), T::neg_infinity(), T::max_value(), -T::max_value(), T::zero().next_up_()];
        for e in impls(kind, nd) {
            let mut clean = vec![T::nan(); combos.len()];
            if let Err(m) = eval(&p, e, &os, &mut clean) {
                rep.violation(&k, format!("{e:?}: {m}"));
                return;
            }
            if let Some(j) = clean.iter().position(|x| !x.is_finite()) {
                rep.violation(&k, format!("{e:?}: {:?} at {:?} from ordinary data", clean[j], os.iter().map(|o| o[j]).collect::<Vec<_>>()));
                return;
            }
            let mut q = p.clone();
            for (i, ix) in cart(&dims.iter().map(|&n| (0..n).collect::<Vec<_>>()).collect::<Vec<_>>()).iter().enumerate() {
                // every special on small tables, one after the other on large ones
                let bs: Vec<T> = if p.vals.len() <= if rep.thorough { 256 } else { 16 } { bad.to_vec() } else { vec![bad[i % 6]] };
                for b in bs {
                    q.vals[i] = b;
                    let mut out = vec![T::of(0.125); combos.len()];
                    let r = catch_unwind(AssertUnwindSafe(|| eval(&q, e, &os, &mut out)));
                    q.vals[i] = p.vals[i];
                    match r {
                        Err(m) => {
                            rep.violation(&k, format!("{e:?}: entry {ix:?} = {b:?}: panic: {}", msg(m)));
                            return;
                        }
                        Ok(Err(m)) => {
                            rep.violation(&k, format!("{e:?}: entry {ix:?} = {b:?}: error {m}"));
                            return;
                        }
                        _ => {}
                    }
                    rep.trace(combos.len());
                    for (j, c) in combos.iter().enumerate() {
                        let inside = (0..nd).all(|a| pos[a][c[a]].1 <= ix[a] && ix[a] <= pos[a][c[a]].2);
                        if !inside && out[j].bits() != clean[j].bits() {
                            rep.violation(&k, format!("{e:?}: entry {ix:?} = {b:?} changes the result at {:?} from {:?} to {:?}", os.iter().map(|o| o[j]).collect::<Vec<_>>(), clean[j], out[j]));
                            return;
                        }
                    }
                }
            }
            // nothing but special values
            for b in specials::<T>(true) {
                q.vals.iter_mut().for_each(|v| *v = b);
                let mut out = vec![T::of(0.125); combos.len()];
                match catch_unwind(AssertUnwindSafe(|| eval(&q, e, &os, &mut out))) {
                    Ok(Ok(())) => rep.trace(combos.len()),
                    r => {
                        rep.violation(&k, format!("{e:?}: a table of {b:?}: {}", match r { Err(m) => msg(m), Ok(r) => format!("{r:?}") }));
                        return;
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), combos.len() * p.vals.len());
    });
}

/// Finite, well-scaled problems of any magnitude give finite results.
fn finite<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize) {
    let k = key("finite", kind, regular, lin, T::NAME, &format!("{nd}D"));
    rep.case(&k, || {
        let min = kind.min_n();
        let mut nst = 0;
        // far from under- and overflow of the squares of steps and of values times weights
        let e = if T::NAME == "f64" { 300 } else { 36 };
        let sx: Vec<i32> = vec![-e / 3, -e / 10, 0, e / 10, e / 3];
        for dims in [vec![min; nd], (0..nd).map(|a| min + (nd <= 3 || a == 0) as usize).collect::<Vec<_>>()] {
            for x in &sx {
                for y in if kind == Kind::Cubic && nd >= 7 && !rep.thorough { &sx[1..2] } else { &sx[..] } {
                    let sp: Vec<Spacing> = (0..nd).map(|a| allowed(regular)[a % allowed(regular).len()]).collect();
                    let mut p = problem::<T>(kind, regular, lin, &sp, &dims, 3);
                    let (fx, fy) = (T::of(10f64.powi(*x)), T::of(10f64.powi(*y)));
                    p.starts.iter_mut().for_each(|v| *v = *v * fx);
                    p.steps.iter_mut().for_each(|v| *v = *v * fx);
                    p.grids.iter_mut().for_each(|g| g.iter_mut().for_each(|v| *v = *v * fx));
                    p.vals.iter_mut().for_each(|v| *v = *v * fy);
                    let g: Vec<Vec<T>> = (0..nd).map(|a| axis::<T>(sp[a], dims[a], a).2.iter().map(|v| *v * fx).collect()).collect();
                    let mut obs = product_obs(&(0..nd).map(|a| positions(&g[a], if nd <= 2 { Level::Full } else if nd <= 4 { Level::Core } else { Level::Sides })).collect::<Vec<_>>());
                    if obs[0].len() > 20_000 || (kind == Kind::Cubic && nd > 5) {
                        let want = if kind == Kind::Cubic { (if rep.thorough { 2_000_000 } else { 300_000 } >> (2 * nd)).clamp(4, 300) } else { 300 };
                        let m = obs[0].len() / want + 1;
                        obs.iter_mut().for_each(|o| *o = o.iter().step_by(m).copied().collect());
                    }
                    let os: Vec<&[T]> = obs.iter().map(|o| &o[..]).collect();
                    for e in impls(kind, nd) {
                        let mut out = vec![T::nan(); os[0].len()];
                        let r = eval(&p, e, &os, &mut out);
                        nst += out.len();
                        if r.is_err() || out.iter().any(|v| !v.is_finite()) {
                            let j = out.iter().position(|v| !v.is_finite()).unwrap_or(0);
                            rep.violation(&k, format!("{e:?}: {r:?}, {:?} at {:?}; coordinates scaled by 1e{x}, values by 1e{y}, dims {dims:?}", out[j], os.iter().map(|o| o[j]).collect::<Vec<_>>()));
                            return;
                        }
                        rep.trace(out.len());
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn one<T: Elt>(rep: &Rep, regular: bool) {
    let k = format!("one_dim/{}/{}", T::NAME, if regular { "regular" } else { "rectilinear" });
    rep.case(&k, || {
        let s = specials::<T>(true);
        let few = specials::<T>(false);
        let mut gs: Vec<(T, T, Vec<T>)> = vec![(T::of(-1.0), T::of(0.5), (0..5).map(|i| T::of(i as f64 * 0.5 - 1.0)).collect())];
        if regular {
            for a in &s {
                for b in &s {
                    for n in [2usize, 3, 100] {
                        gs.push((*a, *b, vec![T::zero(); n]));
                    }
                }
            }
        } else {
            for n in 2..=3 {
                for g in power(&few, n) {
                    gs.push((T::zero(), T::one(), g));
                }
            }
        }
        let mut nst = 0;
        for (st, sp, g) in &gs {
            let gr = if regular { G1::Reg(*st, *sp) } else { G1::Rect(g) };
            let v = dense::<T>(g.len(), 4);
            let mut xs = s.clone();
            xs.extend([*st, *st + *sp, *st + *sp * T::of(0.5)]);
            xs.extend(g.iter().take(4));
            for rule in Rule::ALL {
                for x in &xs {
                    for how in [How::One, How::Batch] {
                        let mut out = [T::of(0.125)];
                        nst += 1;
                        match catch_unwind(AssertUnwindSafe(|| eval1(&gr, &v, rule, how, &[*x], &mut out))) {
                            Err(m) => {
                                rep.violation(&k, format!("{rule:?}: panic: {} at {x:?}, start {st:?} step {sp:?} grid {:?}", msg(m), &g[..g.len().min(4)]));
                                return;
                            }
                            Ok(Ok(())) if x.is_nan() && !out[0].is_nan() => {
                                rep.violation(&k, format!("{rule:?}: NaN gives {:?}; start {st:?} step {sp:?} grid {:?}", out[0], &g[..g.len().min(4)]));
                                return;
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        // special table entries: every entry, at every point of an ordinary grid
        let (st, sp, g) = &gs[0];
        let gr = if regular { G1::Reg(*st, *sp) } else { G1::Rect(g) };
        let v = dense::<T>(5, 4);
        let xs: Vec<T> = positions(g, Level::Full);
        for rule in Rule::ALL {
            let mut clean = vec![T::nan(); xs.len()];
            eval1(&gr, &v, rule, How::Batch, &xs, &mut clean).unwrap();
            for i in 0..5usize {
                for b in &s {
                    let mut w = v.clone();
                    w[i] = *b;
                    let mut out = vec![T::nan(); xs.len()];
                    nst += xs.len();
                    if let Err(m) = catch_unwind(AssertUnwindSafe(|| eval1(&gr, &w, rule, How::Batch, &xs, &mut out))) {
                        rep.violation(&k, format!("{rule:?}: entry {i} = {b:?}: panic {}", msg(m)));
                        return;
                    }
                    for j in 0..xs.len() {
                        // the two ends of the cell, or of the edge cell outside; a node may use either cell
                        let t = (xs[j].f() + 1.0) / 0.5;
                        let c = (t.floor().clamp(0.0, 3.0)) as usize;
                        let near = (t - t.round()).abs() < 1e-3;
                        let (lo, hi) = if near && t > 0.5 && t < 3.5 { ((t.round() as usize).saturating_sub(1), t.round() as usize + 1) } else { (c, c + 1) };
                        if (i < lo || i > hi) && out[j].bits() != clean[j].bits() {
                            rep.violation(&k, format!("{rule:?}: entry {i} = {b:?} changes the result at {:?} from {:?} to {:?}", xs[j], clean[j], out[j]));
                            return;
                        }
                    }
                }
            }
        }
        rep.traces.fetch_add(nst as u64, std::sync::atomic::Ordering::Relaxed);
        rep.evals.fetch_add(nst as u64, std::sync::atomic::Ordering::Relaxed);
        rep.states_keyed(hash_str(&k), nst);
    });
}

fn main() {
    let rep = Rep::new("C17");
    let tick = |w: &str| if std::env::var("VH_TIMES").is_ok() { eprintln!("{w}: {:.1}", rep.elapsed()) };
    let mut v = vec![];
    for (k, r, l) in methods() {
        for nd in 1..=k.max_dims() {
            v.push((k, r, l, nd, 0));
            if nd <= 3 {
                v.push((k, r, l, nd, 1));
            }
            v.push((k, r, l, nd, 2));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == Kind::Cubic, x.3)));
    rep.par(&v, |&(k, r, l, nd, w)| match w {
        0 => {
            coords::<f64>(&rep, k, r, l, nd);
            coords::<f32>(&rep, k, r, l, nd);
        }
        1 => {
            grids::<f64>(&rep, k, r, l, nd);
            grids::<f32>(&rep, k, r, l, nd);
        }
        _ => {
            finite::<f64>(&rep, k, r, l, nd);
            finite::<f32>(&rep, k, r, l, nd);
        }
    });
    tick("first");
    let mut t = vec![];
    for (k, r, l) in methods() {
        let m = k.min_n();
        let mut ds: Vec<Vec<usize>> = vec![vec![m], vec![m + 1], vec![m + 3], vec![9], vec![m, m], vec![m + 1, m], vec![m, m + 2], vec![m, m + 1, m], vec![m + 1, m, m]];
        if m == 2 {
            ds.extend([vec![3, 3, 3], vec![2, 2, 3, 2], vec![3, 2, 2, 2, 2], vec![2, 2, 2, 2, 2, 2]]);
        } else {
            ds.push(vec![4, 4, 4, 4]);
        }
        for d in ds {
            for si in 0..if r { 2 } else { 4 } {
                if si > 0 && d.len() > 2 {
                    continue;
                }
                t.push((k, r, l, d.clone(), si));
            }
        }
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.3.iter().product::<usize>()));
    rep.par(&t, |(k, r, l, d, si)| {
        table::<f64>(&rep, *k, *r, *l, d, *si);
        table::<f32>(&rep, *k, *r, *l, d, *si);
    });
    tick("table");
    rep.par(&[true, false], |&r| {
        one::<f64>(&rep, r);
        one::<f32>(&rep, r);
    });
    rep.finish()
}
