//! C09: a result depends only on (and on all of) the documented neighbourhood of values.
use vh::gen_::*;
use vh::hood::*;
use vh::iface::*;
use vh::num::Elt;
use vh::refm::axis_weights;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

struct T1 {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    free: Option<(usize, usize, usize)>,
    influence: bool,
}

fn run<T: Elt>(rep: &Rep, t: &T1) {
    let nd = t.dims.len();
    let p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 31);
    let exact = t.sp.iter().all(|s| s.exact());
    let k = vh::conf::key(&p, &format!("{}/{:?}", sp_tag(&t.sp), t.free).replace(' ', ""));
    rep.case(&k, || {
        let cls: Vec<Vec<Cls<T>>> = (0..nd).map(|a| classes(t.kind, &p.grids[a], &ref_nodes(&p, a), exact)).collect();
        let mut ids: Vec<Vec<usize>> = cls.iter().map(|c| (0..c.len()).collect()).collect();
        if let Some((a, b, s)) = t.free {
            for x in 0..nd {
                if x != a && x != b {
                    ids[x] = vec![(x * 3 + s) % cls[x].len()];
                }
            }
        }
        let combos = cart(&ids);
        rep.states_keyed(hash_str(&k), combos.len());
        rep.sample(|| format!("{k}: {} neighbourhoods", combos.len()));
        let ents = impls(t.kind, nd);
        let mut stride = vec![1usize; nd];
        for a in (0..nd - 1).rev() {
            stride[a] = stride[a + 1] * t.dims[a + 1];
        }
        for c in &combos {
            let pos: Vec<Vec<T>> = (0..nd)
                .map(|a| {
                    let xs = &cls[a][c[a]].xs;
                    if nd <= 2 { xs.clone() } else { vec![xs[(a + c[a]) % xs.len()]] }
                })
                .collect();
            let cols = product_obs(&pos);
            let tot = cols[0].len();
            let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
            let inside = |i: usize| (0..nd).all(|a| {
                let x = i / stride[a] % t.dims[a];
                x >= cls[a][c[a]].lo && x <= cls[a][c[a]].hi
            });
            for &e in &ents {
                let mut base = vec![T::nan(); tot];
                if let Err(m) = eval(&p, e, &os, &mut base) {
                    rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                    return;
                }
                for poison in [T::nan(), T::infinity(), T::of(-3.0e20)] {
                    let mut q = p.clone();
                    for i in 0..q.vals.len() {
                        if !inside(i) {
                            q.vals[i] = poison;
                        }
                    }
                    let mut out = vec![T::of(0.77); tot];
                    let r = eval(&q, e, &os, &mut out);
                    let bad = (0..tot).find(|&j| !out[j].same(base[j]));
                    if r.is_err() || bad.is_some() {
                        let j = bad.unwrap_or(0);
                        let ranges: Vec<(usize, usize)> = (0..nd).map(|a| (cls[a][c[a]].lo, cls[a][c[a]].hi)).collect();
                        rep.violation(&k, format!("{e:?}: entries outside index ranges {ranges:?} set to {poison:?} change {:?} to {:?} ({r:?}) at {:?}", base[j], out[j], cols.iter().map(|x| x[j]).collect::<Vec<_>>()));
                        return;
                    }
                    rep.trace(tot);
                    if nd > 4 && !rep.thorough {
                        break;
                    }
                }
                if t.influence {
                    // every entry with non-zero weight matters: bump it and see the last point of the class move
                    let j = tot / 2;
                    let o1: Vec<&[T]> = cols.iter().map(|c| &c[j..=j]).collect();
                    let w: Vec<_> = (0..nd).map(|a| axis_weights(t.kind, t.lin, &ref_nodes(&p, a), o1[a][0].dd(), T::EPS, exact)).collect();
                    if w.iter().any(|w| w.ambiguous) {
                        continue;
                    }
                    // rounding of the two results that are subtracted
                    let noise = 4.0 * T::EPS * w.iter().map(|w| w.norm().max(1.0)).product::<f64>() * w.iter().map(|w| w.err / w.norm().max(1.0)).sum::<f64>().max(4.0);
                    let per: Vec<Vec<usize>> = w.iter().map(|w| (0..w.w.len()).collect()).collect();
                    for kx in cart(&per) {
                        let wt: f64 = (0..nd).map(|a| w[a].w[kx[a]].hi).product();
                        if wt.abs() < 1e-3 || noise > 0.25 * wt.abs() {
                            continue;
                        }
                        let i: usize = (0..nd).map(|a| (w[a].start + kx[a]) * stride[a]).sum();
                        let mut q = p.clone();
                        let old = q.vals[i];
                        q.vals[i] = old + T::one();
                        let mut out = [T::nan()];
                        let r = eval(&q, e, &o1, &mut out);
                        let moved = (out[0] - base[j]).dd().hi;
                        if r.is_err() || (moved - wt).abs() > wt.abs() * 0.25 + noise {
                            rep.violation(&k, format!("{e:?}: raising entry {i} by 1 moves the result by {moved:e} instead of {wt:e} at {:?}", o1.iter().map(|x| x[0]).collect::<Vec<_>>()));
                            return;
                        }
                        rep.trace(1);
                    }
                }
            }
        }
    });
}

fn main() {
    let rep = Rep::new("C09");
    let th = rep.thorough;
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        let m = kind.min_n();
        for s in bits(regular, m + 3) {
            v.push(T1 { kind, regular, lin, sp: vec![s], dims: vec![m + 3], free: None, influence: true });
        }
        for nd in 1..=kind.max_dims() {
            for (q, sp) in mixes(regular, nd).into_iter().chain(dyadic(regular, nd)).chain(if nd > 4 { vec![] } else { vh::shapes::odd(regular, nd) }).enumerate() {
                let heavy = kind == Kind::Cubic;
                let mk = |dims: Vec<usize>, free, influence| T1 { kind, regular, lin, sp: sp.clone(), dims, free, influence };
                match nd {
                    1 => {
                        for n in (m..=m + 12).chain([33, 65, 129, 257, 300]).chain(if th { vec![513, 1025] } else { vec![] }) {
                            v.push(mk(vec![n], None, true));
                        }
                    }
                    2 => {
                        for d in power(&[m, m + 1, m + 3], 2) {
                            v.push(mk(d, None, th || q < 2));
                        }
                        if th || q == 0 {
                            v.push(mk(vec![m + 6, m + 5], None, false));
                        }
                    }
                    3 => {
                        for d in power(&[m, m + 1], 3) {
                            if heavy && !th && d.iter().filter(|x| **x > m).count() > 1 {
                                v.push(mk(d, Some((q % 3, (q + 1) % 3, q)), false));
                            } else {
                                v.push(mk(d, None, th && !heavy));
                            }
                        }
                    }
                    _ => {
                        if heavy && nd >= 7 && !th && q > 0 {
                            continue;
                        }
                        if heavy && nd == 8 && q > 0 {
                            continue;
                        }
                        let d: Vec<usize> = (0..nd).map(|a| m + (a == q % nd || (!heavy && a % 2 == 0)) as usize).collect();
                        for a in 0..nd {
                            for b in a + 1..nd {
                                if heavy && nd >= 6 && !th && (b != a + 1 || nd == 8 && a > 1) {
                                    continue;
                                }
                                if heavy && nd >= 7 {
                                    // lines only
                                    v.push(mk(d.clone(), Some((a, a, a + b)), false));
                                } else {
                                    v.push(mk(d.clone(), Some((a, b, a + b)), !heavy && nd == 4));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse(t.dims.iter().product::<usize>() << t.dims.len()));
    rep.note("grids", 2 * v.len() as u64);
    rep.par(&v, |t| {
        run::<f64>(&rep, t);
        run::<f32>(&rep, t);
    });
    rep.finish()
}
