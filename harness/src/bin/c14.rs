//! C14: the bounds check flags exactly the axes violated by more than the tolerance.
use interpn::multilinear::{rectilinear, rectilinear_recursive, regular, regular_recursive};
use vh::gen_::*;
use vh::num::Elt;
use vh::report::{Rep, hash_str};

#[derive(Clone, Copy, PartialEq, Debug)]
enum C {
    In,
    InNear,
    EdgeLo,
    EdgeHi,
    AtLo,
    AtHi,
    WithinLo,
    WithinHi,
    OutLo,
    OutHi,
    FarLo,
    FarHi,
    InfLo,
    InfHi,
}
const ALL: [C; 14] = [C::In, C::InNear, C::EdgeLo, C::EdgeHi, C::AtLo, C::AtHi, C::WithinLo, C::WithinHi, C::OutLo, C::OutHi, C::FarLo, C::FarHi, C::InfLo, C::InfHi];
fn bad(c: C) -> bool {
    matches!(c, C::OutLo | C::OutHi | C::FarLo | C::FarHi | C::InfLo | C::InfHi)
}

struct Ax<T> {
    start: T,
    step: T,
    n: usize,
    grid: Vec<T>,
    lo: T,
    hi: T,
    exact: bool,
}
fn ax<T: Elt>(sp: Spacing, n: usize, a: usize) -> Ax<T> {
    let (start, step, grid) = axis::<T>(sp, n, a);
    Ax { lo: grid[0], hi: grid[n - 1], start, step, n, exact: sp.exact(), grid }
}
/// A coordinate of the class; `None` when it cannot be told apart from another class by rounding.
fn coord<T: Elt>(x: &Ax<T>, c: C, atol: f64) -> Option<T> {
    let t = T::of(atol);
    let big = x.lo.f().abs().max(x.hi.f().abs()).max(atol);
    // safe margin for inexact grids
    let m = T::of(8.0 * T::EPS * big);
    Some(match c {
        C::In => x.lo + (x.hi - x.lo) * T::of(0.4375),
        C::InNear => {
            if x.exact { x.hi.next_down_() } else { x.hi - m }
        }
        C::EdgeLo => if x.exact || atol > 16.0 * T::EPS * big { x.lo } else { x.lo + m },
        C::EdgeHi => if x.exact || atol > 16.0 * T::EPS * big { x.hi } else { x.hi - m },
        C::AtLo => if x.exact && x.lo - (x.lo - t) == t { x.lo - t } else { return None },
        C::AtHi => if x.exact && (x.hi + t) - x.hi == t { x.hi + t } else { return None },
        C::WithinLo => if atol > 64.0 * T::EPS * big { x.lo - t * T::of(0.75) } else { return None },
        C::WithinHi => if atol > 64.0 * T::EPS * big { x.hi + t * T::of(0.75) } else { return None },
        C::OutLo => {
            let y = x.lo - t;
            if x.exact { let z = y.next_down_(); if (z - x.lo) < -t { z } else { x.lo - t - m } } else { y - m - m }
        }
        C::OutHi => {
            let y = x.hi + t;
            if x.exact { let z = y.next_up_(); if (z - x.hi) > t { z } else { x.hi + t + m } } else { y + m + m }
        }
        C::FarLo => x.lo - t - (x.hi - x.lo) * T::of(1e4) - T::one(),
        C::FarHi => x.hi + t + (x.hi - x.lo) * T::of(1e4) + T::one(),
        C::InfLo => T::neg_infinity(),
        C::InfHi => T::infinity(),
    })
}

/// All four functions (those that apply) on one set of lists.
fn check<T: Elt>(rep: &Rep, k: &str, axs: &[Ax<T>], even: bool, lists: &[Vec<T>], atol: f64, init: &[bool], want: &[bool], what: &dyn Fn() -> String) -> bool {
    let dims: Vec<usize> = axs.iter().map(|a| a.n).collect();
    let st: Vec<T> = axs.iter().map(|a| a.start).collect();
    let sp: Vec<T> = axs.iter().map(|a| a.step).collect();
    let gs: Vec<&[T]> = axs.iter().map(|a| &a.grid[..]).collect();
    let os: Vec<&[T]> = lists.iter().map(|l| &l[..]).collect();
    for f in 0..4 {
        if f < 2 && !even {
            continue;
        }
        let mut out = init.to_vec();
        let t = T::of(atol);
        let r = match f {
            0 => regular::check_bounds(&dims, &st, &sp, &os, t, &mut out),
            1 => regular_recursive::check_bounds(&dims, &st, &sp, &os, t, &mut out),
            2 => rectilinear::check_bounds(&gs, &os, t, &mut out),
            _ => rectilinear_recursive::check_bounds(&gs, &os, t, &mut out),
        };
        if r.is_err() || out != want {
            let name = ["regular", "regular_recursive", "rectilinear", "rectilinear_recursive"][f];
            rep.violation(k, format!("{name}::check_bounds {r:?} flags {out:?} instead of {want:?}: {}", what()));
            return false;
        }
        DONE.with(|d| {
            let (a, b) = d.get();
            d.set((a + 1, b + lists.iter().map(|l| l.len()).sum::<usize>()));
        });
    }
    true
}

thread_local! {
    /// (calls that agreed, coordinates they looked at)
    static DONE: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
fn flush(rep: &Rep, k: &str, what: &str) {
    let (a, b) = DONE.with(|d| d.replace((0, 0)));
    rep.traces.fetch_add(a as u64, std::sync::atomic::Ordering::Relaxed);
    rep.evals.fetch_add(a as u64, std::sync::atomic::Ordering::Relaxed);
    rep.transitions.fetch_add(b as u64, std::sync::atomic::Ordering::Relaxed);
    rep.sample(|| format!("{k}: {a} calls over {b} coordinates: {what}"));
}

fn inits(nd: usize) -> Vec<Vec<bool>> {
    vec![vec![false; nd], vec![true; nd], (0..nd).map(|a| a % 2 == 0).collect()]
}

/// Every pair of classes per axis, alone and next to a second axis with every class.
fn run<T: Elt>(rep: &Rep, nd: usize, sp: &[Spacing], n0: usize, atol: f64) {
    let k = format!("classes/{}/{nd}D/{}/n{n0}/tol{atol}", T::NAME, vh::shapes::sp_tag(sp));
    rep.case(&k, || {
        let even = sp.iter().all(|s| s.even());
        let axs: Vec<Ax<T>> = (0..nd).map(|a| ax(sp[a], n0 + a % 3, a)).collect();
        let mut n = 0usize;
        let cl: Vec<Vec<(C, T)>> = axs.iter().map(|x| ALL.iter().filter_map(|&c| coord(x, c, atol).map(|v| (c, v))).collect()).collect();
        let ins: Vec<T> = axs.iter().map(|x| coord(x, C::In, atol).unwrap()).collect();
        // (1) one axis: every ordered pair of classes; every other axis inside, violated, or on its edge
        for a in 0..nd {
            for bg in 0..3 {
                for (c1, x1) in &cl[a] {
                    for (c2, x2) in &cl[a] {
                        let lists: Vec<Vec<T>> = (0..nd)
                            .map(|b| {
                                if a == b {
                                    vec![*x1, *x2]
                                } else {
                                    match bg {
                                        0 => vec![ins[b]; 2],
                                        1 => vec![ins[b], coord(&axs[b], C::OutHi, atol).unwrap()],
                                        _ => vec![coord(&axs[b], C::EdgeLo, atol).unwrap(), coord(&axs[b], C::EdgeHi, atol).unwrap()],
                                    }
                                }
                            })
                            .collect();
                        let want: Vec<bool> = (0..nd).map(|b| if a == b { bad(*c1) || bad(*c2) } else { bg == 1 }).collect();
                        for init in inits(nd) {
                            n += 1;
                            if !check(rep, &k, &axs, even, &lists, atol, &init, &want, &|| format!("axis {a} holds {c1:?} {x1:?} and {c2:?} {x2:?} (grid {:?}..{:?}, tolerance {atol}), background {bg}, flags before {init:?}", axs[a].lo, axs[a].hi)) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        // (2) every combination over axes of {inside, edge, below, above} (large dimension counts: {inside, below} and {inside, above})
        let alph: Vec<Vec<C>> = if nd <= 4 { vec![vec![C::In, C::EdgeHi, C::OutLo, C::OutHi]; nd] } else if nd <= 6 { vec![vec![C::In, C::OutLo, C::OutHi]; nd] } else { vec![vec![C::In, if n0 % 2 == 0 { C::OutLo } else { C::OutHi }]; nd] };
        for combo in cart(&alph) {
            let want: Vec<bool> = combo.iter().map(|c| bad(*c)).collect();
            for place in 0..3usize {
                let lists: Vec<Vec<T>> = (0..nd)
                    .map(|a| {
                        let x = coord(&axs[a], combo[a], atol).unwrap();
                        match place {
                            0 => vec![x],
                            1 => {
                                let mut v = vec![ins[a]; 5];
                                v[a % 5] = x;
                                v
                            }
                            _ => {
                                // lists of different lengths
                                let mut v = vec![ins[a]; 1 + (a * 3) % 7];
                                *v.last_mut().unwrap() = x;
                                v
                            }
                        }
                    })
                    .collect();
                for init in inits(nd) {
                    n += 1;
                    if !check(rep, &k, &axs, even, &lists, atol, &init, &want, &|| format!("axes {combo:?}, tolerance {atol}, flags before {init:?}, arrangement {place}")) {
                        return;
                    }
                }
            }
        }
        // (3) no points at all
        for init in inits(nd) {
            n += 1;
            if !check(rep, &k, &axs, even, &vec![vec![]; nd], atol, &init, &vec![false; nd], &|| format!("no points, flags before {init:?}")) {
                return;
            }
        }
        rep.states_keyed(hash_str(&k), n);
        flush(rep, &k, "every ordered pair of classes on one axis against three backgrounds, every combination of classes over the axes, three initial flag patterns");
    });
}

/// One offending point at every position of lists of every length.
fn long<T: Elt>(rep: &Rep, sp: Spacing, n0: usize) {
    let k = format!("lists/{}/{:?}/n{n0}", T::NAME, sp);
    rep.case(&k, || {
        let axs: Vec<Ax<T>> = (0..2).map(|a| ax(sp, n0, a)).collect();
        let mut n = 0usize;
        let mut cases: Vec<(usize, usize)> = vec![];
        for l in 1..=if rep.thorough { 200 } else { 70 } {
            for i in 0..l {
                cases.push((l, i));
            }
        }
        for l in [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65536, 65537] {
            for i in 0..if l < 600 { l } else { 24 } {
                cases.push((l, if l < 600 { i } else if i < 8 { i } else if i < 16 { l - 1 - (i - 8) } else { l / 2 + i }));
            }
        }
        for (l, i) in cases {
            for (c, b) in [(C::OutLo, true), (C::OutHi, true), (C::AtHi, false)] {
                let Some(x) = coord(&axs[1], c, 0.25) else { continue };
                let mut v: Vec<T> = (0..l).map(|j| coord(&axs[1], if j % 5 == 4 { C::EdgeHi } else { C::In }, 0.25).unwrap()).collect();
                v[i] = x;
                let lists = vec![vec![coord(&axs[0], C::In, 0.25).unwrap(); l], v];
                n += 1;
                if !check(rep, &k, &axs, sp.even(), &lists, 0.25, &[true, false], &[false, b], &|| format!("{l} points, {c:?} {x:?} at position {i}")) {
                    return;
                }
                if l > 600 && !b {
                    break;
                }
            }
        }
        rep.states_keyed(hash_str(&k), n);
        flush(rep, &k, "one offending point at every position of lists of every length");
    });
}

fn main() {
    let rep = Rep::new("C14");
    let mut v = vec![];
    for nd in 1..=if rep.thorough { 12 } else { 10usize } {
        let mut m = vh::shapes::mixes(false, nd);
        m.extend(vh::shapes::dyadic(false, nd));
        m.push(vec![Spacing::EvenGeneric; nd]);
        for sp in m {
            for n0 in [2usize, 3, 5, 64, 1000] {
                if nd > 4 && n0 > 64 {
                    continue;
                }
                for atol in [0.0, 0.25, 1.0, 1e-3, 1e-8, 64.0] {
                    v.push((nd, sp.clone(), n0, atol));
                }
            }
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    rep.par(&v, |(nd, sp, n0, atol)| {
        run::<f64>(&rep, *nd, sp, *n0, *atol);
        run::<f32>(&rep, *nd, sp, *n0, *atol);
    });
    let w: Vec<(Spacing, usize)> = Spacing::ALL.iter().flat_map(|s| [2usize, 17].map(|n| (*s, n))).collect();
    rep.par(&w, |&(s, n)| {
        long::<f64>(&rep, s, n);
        long::<f32>(&rep, s, n);
    });
    rep.finish()
}
