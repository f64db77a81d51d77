//! C13: malformed input is an error, never a panic; well-formed input is accepted.
use interpn::{multicubic, multilinear};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vh::dev::*;
use vh::gen_::*;
use vh::iface::*;
use vh::num::Elt;
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

fn call<T: Elt>(rep: &Rep, k: &str, r: &Raw<T>, e: Entry, what: &dyn Fn() -> String) -> bool {
    let os: Vec<&[T]> = r.obs.iter().map(|c| &c[..]).collect();
    let l = match e {
        Entry::FnAlloc | Entry::RecFnAlloc => r.obs.first().map_or(0, |o| o.len()),
        _ => r.out,
    };
    let mut out = vec![T::of(-7777.5); l];
    let want = ok_call(r, e);
    let got = catch_unwind(AssertUnwindSafe(|| eval(&r.p, e, &os, &mut out)));
    match got {
        Err(m) => {
            rep.violation(k, format!("{e:?}: {}: panic: {}", what(), msg(m)));
            return false;
        }
        Ok(g) => {
            if g.is_ok() != want {
                rep.violation(k, format!("{e:?}: {}: {g:?} but the call is {}", what(), if want { "well-formed" } else { "malformed" }));
                return false;
            }
            if want && out.iter().any(|x| x.f() == -7777.5 || !x.is_finite()) {
                rep.violation(k, format!("{e:?}: {}: output not written: {out:?}", what()));
                return false;
            }
            rep.trace(1);
            rep.outcomes_bulk(std::iter::once(hash_str(&format!("{e:?}{g:?}"))));
        }
    }
    true
}

fn run<T: Elt>(rep: &Rep, kind: Kind, regular: bool, lin: bool, nd: usize, l: usize, exact_min: bool) {
    let k = format!("{kind:?}/{}/{}/lin={lin}/{nd}D/{l} points/min={exact_min}", if regular { "regular" } else { "rectilinear" }, T::NAME);
    rep.case(&k, || {
        let min = kind.min_n();
        let base = base::<T>(kind, regular, lin, nd, l, exact_min);
        let mut ents: Vec<Entry> = vec![Entry::Fn, Entry::FnAlloc];
        if kind != Kind::Nearest {
            ents.extend([Entry::RecFn, Entry::RecFnAlloc]);
            let ms: Vec<usize> = if nd == 0 { vec![1, 8] } else { vec![nd.saturating_sub(1), nd, nd + 1, 8, 10] };
            let mut ms: Vec<usize> = ms.into_iter().filter(|m| *m >= 1 && (*m <= 8 || *m == 10)).collect();
            ms.sort();
            ms.dedup();
            ents.extend(ms.into_iter().map(Entry::Rec));
        }
        if nd >= 1 {
            ents.push(Entry::Flat);
        }
        let ds = devs(nd, regular);
        let big = base.p.vals.len() > 3000;
        rep.sample(|| format!("{k}: all single and pairwise deviations out of {}", ds.len()));
        let mut n = 0usize;
        for (i, &d1) in ds.iter().enumerate() {
            // pairs of deviations; large tables: single ones only, unless thorough
            let second: Vec<Dev> = if big && !(rep.thorough && base.p.vals.len() < 70000) { vec![Dev::None] } else { std::iter::once(Dev::None).chain(ds[i + 1..].iter().copied().filter(|_| i > 0)).collect() };
            for d2 in second {
                for f in [Fit::No, Fit::Vals, Fit::All] {
                    if f != Fit::No && !matches!(d1, Dev::Nd(_) | Dev::Dim(..) | Dev::DimZero(_)) && !matches!(d2, Dev::Nd(_) | Dev::Dim(..) | Dev::DimZero(_)) {
                        continue;
                    }
                    let mut r = base.clone();
                    apply(&mut r, d1, min);
                    if f == Fit::All {
                        fit(&mut r, Fit::All);
                        apply(&mut r, d2, min);
                        if matches!(d2, Dev::Nd(_) | Dev::Dim(..) | Dev::DimZero(_)) {
                            fit(&mut r, Fit::All);
                        }
                    } else {
                        apply(&mut r, d2, min);
                        fit(&mut r, f);
                    }
                    if r.p.vals.len() > 1_200_000 {
                        continue;
                    }
                    n += 1;
                    for &e in &ents {
                        // a flattened object exists only for matching array lengths (checked by the type)
                        if e == Entry::Flat && r.p.regular && (r.p.starts.len() != r.p.dims.len() || r.p.steps.len() != r.p.dims.len()) {
                            continue;
                        }
                        if !call(rep, &k, &r, e, &|| format!("{d1:?} + {d2:?}, fit {f:?}")) {
                            return;
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), n);
    });
}

/// Grids so large that the product of the axis lengths wraps to the number of values given.
fn overflow(rep: &Rep) {
    let k = "overflow".to_string();
    rep.case(&k, || {
        let mut n = 0;
        let sets: Vec<(Vec<usize>, usize)> = vec![
            (vec![1 << 32, 1 << 32], 0),
            (vec![(1 << 63) + 2, 2], 4),
            (vec![(1 << 63) + 2, 4], 8),
            (vec![1 << 63, 4], 0),
            (vec![1 << 16; 4], 0),
            (vec![1 << 16; 5], 0),
            (vec![1 << 8; 8], 0),
            (vec![4, 1 << 62, 4], 0),
            (vec![4, (1 << 62) + 4], 16),
            (vec![usize::MAX, usize::MAX], 1),
            (vec![usize::MAX, 4, usize::MAX], 4),
            (vec![usize::MAX; 8], 1),
            (vec![usize::MAX], 0),
            (vec![usize::MAX, 4], 0),
        ];
        for (dims, nv) in &sets {
            for kind in Kind::ALL {
                for perm in 0..dims.len() {
                    let mut d = dims.clone();
                    d.rotate_left(perm);
                    let nd = d.len();
                    let p = Problem::<f64> { kind, regular: true, lin: true, starts: vec![0.0; nd], steps: vec![1.0; nd], grids: vec![], vals: vec![0.5; *nv], dims: d.clone() };
                    let r = Raw { p, obs: vec![vec![0.5]; nd], out: 1 };
                    for e in [Entry::Fn, Entry::FnAlloc, Entry::RecFn, Entry::RecFnAlloc, Entry::Rec(8), Entry::Flat] {
                        if kind == Kind::Nearest && !matches!(e, Entry::Fn | Entry::FnAlloc | Entry::Flat) {
                            continue;
                        }
                        n += 1;
                        if !call(rep, &k, &r, e, &|| format!("axis lengths {d:?} with {nv} values")) {
                            return;
                        }
                    }
                }
            }
        }
        // rectilinear: one slice used for every axis
        for (len, nd) in [(1usize << 16, 4usize), (1 << 16, 5), (1 << 8, 8), (1 << 11, 6), (1 << 13, 5), (1 << 22, 3)] {
            let g: Vec<f64> = (0..len).map(|i| i as f64).collect();
            let gs: Vec<&[f64]> = vec![&g[..]; nd];
            let vals: Vec<f64> = vec![];
            for kind in Kind::ALL {
                let p = Problem::<f64> { kind, regular: false, lin: true, starts: vec![], steps: vec![], grids: vec![], vals: vals.clone(), dims: vec![] };
                let o = vec![vec![0.5]; nd];
                let os: Vec<&[f64]> = o.iter().map(|x| &x[..]).collect();
                for e in [Entry::Fn, Entry::FnAlloc, Entry::RecFn, Entry::RecFnAlloc, Entry::Rec(8), Entry::Flat] {
                    if kind == Kind::Nearest && !matches!(e, Entry::Fn | Entry::FnAlloc | Entry::Flat) {
                        continue;
                    }
                    n += 1;
                    let mut out = [0.0];
                    let res = catch_unwind(AssertUnwindSafe(|| eval_rect_with(&p, &gs, e, &os, &mut out)));
                    match res {
                        Ok(Err(_)) => rep.trace(1),
                        Ok(Ok(())) => return rep.violation(&k, format!("{kind:?} {e:?}: {nd} axes of {len} entries with no values accepted")),
                        Err(m) => return rep.violation(&k, format!("{kind:?} {e:?}: {nd} axes of {len} entries: panic: {}", msg(m))),
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), n);
    });
}

/// Points of the wrong length given to the single-point methods of the recursive objects.
fn single_points(rep: &Rep) {
    let k = "single".to_string();
    rep.case(&k, || {
        let mut n = 0;
        for kind in [Kind::Linear, Kind::Cubic] {
            for regular in [true, false] {
                for nd in 1..=6usize {
                    let m = kind.min_n();
                    let dims = vec![m; nd];
                    let p: &'static Problem<f64> = Box::leak(Box::new(problem::<f64>(kind, regular, true, &vec![Spacing::EvenDyadic; nd], &dims, 3)));
                    let o = vh::obj::make(p, true).expect("object");
                    for l in 0..=10usize {
                        n += 1;
                        let x = vec![0.25; l];
                        let r = catch_unwind(AssertUnwindSafe(|| o.one(&x)));
                        match r {
                            Err(e) => return rep.violation(&k, format!("{kind:?} regular={regular} {nd}-D: point of {l} coordinates: panic {}", msg(e))),
                            Ok(r) if r.is_ok() != (l == nd) => return rep.violation(&k, format!("{kind:?} regular={regular} {nd}-D: point of {l} coordinates: {r:?}")),
                            _ => rep.trace(1),
                        }
                    }
                }
            }
        }
        // maximum dimension parameter larger than the data
        macro_rules! spare {
            ($m:tt) => {
                for nd in 1..=$m.min(5usize) {
                    let p = problem::<f64>(Kind::Cubic, true, true, &vec![Spacing::EvenDyadic; nd], &vec![4; nd], 3);
                    let g: Vec<&[f64]> = p.grids.iter().map(|x| &x[..]).collect();
                    for l in 0..=10usize {
                        n += 1;
                        let x = vec![0.25; l];
                        let rs = [
                            catch_unwind(AssertUnwindSafe(|| multilinear::MultilinearRegularRecursive::<f64, $m>::new(&p.dims, &p.starts, &p.steps, &p.vals).and_then(|i| i.interp_one(&x)))),
                            catch_unwind(AssertUnwindSafe(|| multilinear::MultilinearRectilinearRecursive::<f64, $m>::new(&g, &p.vals).and_then(|i| i.interp_one(&x)))),
                            catch_unwind(AssertUnwindSafe(|| multicubic::MulticubicRegularRecursive::<f64, $m>::new(&p.dims, &p.starts, &p.steps, &p.vals, true).and_then(|i| i.interp_one(&x)))),
                            catch_unwind(AssertUnwindSafe(|| multicubic::MulticubicRectilinearRecursive::<f64, $m>::new(&g, &p.vals, true).and_then(|i| i.interp_one(&x)))),
                        ];
                        for (i, r) in rs.into_iter().enumerate() {
                            match r {
                                Err(e) => return rep.violation(&k, format!("recursive object {i}, maximum {}, {nd}-D: point of {l} coordinates: panic {}", $m, msg(e))),
                                Ok(r) if r.is_ok() != (l == nd) => return rep.violation(&k, format!("recursive object {i}, maximum {}, {nd}-D: point of {l} coordinates: {r:?}", $m)),
                                _ => rep.trace(1),
                            }
                        }
                    }
                }
            };
        }
        spare!(1);
        spare!(3);
        spare!(5);
        spare!(8);
        spare!(10);
        rep.states_keyed(hash_str(&k), n);
    });
}

fn bounds<T: Elt>(rep: &Rep, nd: usize) {
    let k = format!("check_bounds/{}/{nd}D", T::NAME);
    rep.case(&k, || {
        let mut n = 0usize;
        for which in 0..4usize {
            let regular = which < 2;
            // lengths of each argument relative to nd, plus one axis emptied
            let rel: Vec<i64> = vec![0, -1, 1, -100];
            let empt: Vec<Option<usize>> = std::iter::once(None).chain((0..nd).map(Some)).collect();
            for c in cart(&vec![rel.clone(); if regular { 5 } else { 3 }]) {
                let len = |i: usize| (nd as i64 + c[i]).max(0) as usize;
                for ez in &empt {
                    for pts in [0usize, 2] {
                        let (nobs, nout, ngrid) = (len(1), len(2), len(0));
                        let mut dims = vec![3usize; ngrid];
                        if let Some(a) = ez
                            && *a < ngrid
                        {
                            dims[*a] = 0;
                        }
                        let obs = vec![vec![T::of(0.5); pts]; nobs];
                        let os: Vec<&[T]> = obs.iter().map(|x| &x[..]).collect();
                        let mut out = vec![false; nout];
                        let (starts, steps) = if regular { (vec![T::zero(); len(3)], vec![T::one(); len(4)]) } else { (vec![], vec![]) };
                        let grids: Vec<Vec<T>> = dims.iter().map(|&n| grid(n)).collect();
                        let gs: Vec<&[T]> = grids.iter().map(|x| &x[..]).collect();
                        let r = catch_unwind(AssertUnwindSafe(|| match which {
                            0 => multilinear::regular::check_bounds(&dims, &starts, &steps, &os, T::zero(), &mut out),
                            1 => multilinear::regular_recursive::check_bounds(&dims, &starts, &steps, &os, T::zero(), &mut out),
                            2 => multilinear::rectilinear::check_bounds(&gs, &os, T::zero(), &mut out),
                            _ => multilinear::rectilinear_recursive::check_bounds(&gs, &os, T::zero(), &mut out),
                        }));
                        let want = nobs == ngrid && nout == ngrid && (!regular || len(3) == ngrid && len(4) == ngrid) && dims.iter().all(|d| *d > 0);
                        n += 1;
                        let what = || format!("function {which}: lengths {c:?} relative to {nd}, empty axis {ez:?}, {pts} points");
                        match r {
                            Err(e) => return rep.violation(&k, format!("{}: panic {}", what(), msg(e))),
                            Ok(r) if r.is_ok() != want && ngrid > 0 => return rep.violation(&k, format!("{}: {r:?}", what())),
                            _ => rep.trace(1),
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), n);
    });
}

fn one_d<T: Elt>(rep: &Rep) {
    let k = format!("1d/{}", T::NAME);
    rep.case(&k, || {
        let mut n = 0usize;
        for nv in 0..=6usize {
            for ng in 0..=6usize {
                for nl in 0..=4usize {
                    for no in 0..=4usize {
                        for rule in Rule::ALL {
                            for how in [How::Batch, How::Alloc] {
                                for regular in [true, false] {
                                    let vals = dense::<T>(nv, 1);
                                    let g = grid::<T>(ng);
                                    let locs = vec![T::of(0.3); nl];
                                    let no = if how == How::Alloc { nl } else { no };
                                    let mut out = vec![T::of(-7777.5); no];
                                    let gg = if regular { G1::Reg(T::zero(), T::one()) } else { G1::Rect(&g) };
                                    let want = nl == no && nv >= 2 && (regular || ng == nv);
                                    let r = catch_unwind(AssertUnwindSafe(|| eval1(&gg, &vals, rule, how, &locs, &mut out)));
                                    n += 1;
                                    let what = || format!("{rule:?} {how:?} regular={regular}: {nv} values, {ng} nodes, {nl} locations, {no} outputs");
                                    match r {
                                        Err(e) => return rep.violation(&k, format!("{}: panic {}", what(), msg(e))),
                                        Ok(r) if r.is_ok() != want => return rep.violation(&k, format!("{}: {r:?}", what())),
                                        _ => rep.trace(1),
                                    }
                                    if want && out.iter().any(|x| x.f() == -7777.5) {
                                        return rep.violation(&k, format!("{}: output not written", what()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        rep.states_keyed(hash_str(&k), n);
    });
}

fn main() {
    let rep = Rep::new("C13");
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        for nd in 0..=10usize {
            for l in [0usize, 1, 3] {
                for em in [true, false] {
                    v.push((kind, regular, lin, nd, l, em));
                }
            }
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == Kind::Cubic, x.3)));
    rep.par(&v, |&(kind, regular, lin, nd, l, em)| {
        let cubic = kind == Kind::Cubic;
        if cubic && nd >= 9 && (l != 1 || !em) || cubic && nd >= 7 && l == 0 {
            return;
        }
        run::<f64>(&rep, kind, regular, lin, nd, l, em);
        if !cubic || nd < 7 {
            run::<f32>(&rep, kind, regular, lin, nd, l, em);
        }
    });
    let nds: Vec<usize> = (1..=8).collect();
    rep.par(&nds, |&nd| {
        bounds::<f64>(&rep, nd);
        bounds::<f32>(&rep, nd);
    });
    overflow(&rep);
    single_points(&rep);
    one_d::<f64>(&rep);
    one_d::<f32>(&rep);
    rep.finish()
}
