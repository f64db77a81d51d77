//! C07: all ways of evaluating one interpolant agree (values, success/failure, every element written).
use vh::conf::{describe, key, reference};
use vh::gen_::*;
use vh::iface::*;
use vh::num::Elt;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

#[derive(Clone)]
struct T1 {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    lv: Level,
    free: Option<(usize, usize, usize)>,
    /// extra positions: huge, infinite, NaN on one axis
    special: bool,
    /// this axis at graded distances, the others at one position
    fine: Option<usize>,
}

fn ents(kind: Kind, nd: usize) -> Vec<Entry> {
    let mut v = entries(kind, nd);
    if kind != Kind::Nearest {
        for m in nd..=8 {
            for e in [Entry::Rec(m), Entry::RecOne(m)] {
                if !v.contains(&e) {
                    v.push(e);
                }
            }
        }
    }
    v
}

fn run<T: Elt>(rep: &Rep, t: &T1) {
    let nd = t.dims.len();
    let p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 11);
    let k = key(&p, &format!("{}/{:?}/{:?}/{:?}", sp_tag(&t.sp), t.lv, t.free, (t.special, t.fine)).replace(' ', ""));
    rep.case(&k, || {
        let mut pos: Vec<Vec<T>> = (0..nd).map(|a| positions(&p.grids[a], t.lv)).collect();
        if let Some((a, b, s)) = t.free {
            for x in 0..nd {
                if x != a && x != b {
                    pos[x] = vec![pos[x][(x * 5 + s) % pos[x].len()]];
                }
            }
        }
        if let Some(a) = t.fine {
            for x in 0..nd {
                pos[x] = if x == a { positions(&p.grids[x], Level::Fine) } else { vec![pos[x][(x * 5 + a) % pos[x].len()]] };
            }
        }
        if t.special {
            // one point at a time below: success or failure must agree
            for x in 0..nd {
                pos[x] = vec![p.grids[x][1], positions(&p.grids[x], Level::Core)[1]];
            }
            for x in 0..nd {
                pos[x].extend([T::nan(), T::infinity(), T::neg_infinity(), T::of(1e30), T::of(-1e30), T::of(3e18), T::max_value()]);
                let cols = product_obs(&pos);
                let tot = cols[0].len();
                let kh = hash_str(&k).wrapping_add(x as u64);
                rep.states_keyed(kh, tot);
                for j in 0..tot {
                    let o: Vec<&[T]> = cols.iter().map(|c| &c[j..=j]).collect();
                    let mut first: Option<(Entry, Result<T, &'static str>)> = None;
                    for e in ents(t.kind, nd) {
                        let mut out = [T::of(0.1234)];
                        let r = eval(&p, e, &o, &mut out).map(|_| out[0]);
                        match &first {
                            None => first = Some((e, r)),
                            Some((e0, r0)) => {
                                let ok = match (r0, &r) {
                                    (Ok(a), Ok(b)) => (a.is_nan() && b.is_nan()) || !a.is_finite() || !b.is_finite() || (*a - *b).abs() <= (a.abs() + b.abs()) * T::of(1e4 * T::EPS),
                                    (Err(_), Err(_)) => true,
                                    _ => false,
                                };
                                if !ok {
                                    rep.violation(&k, format!("{e0:?} gives {r0:?} but {e:?} gives {r:?}; {}", describe(&p, &cols, j)));
                                }
                            }
                        }
                    }
                    rep.trace(1);
                }
                pos[x].truncate(2);
            }
            return;
        }
        let cols = product_obs(&pos);
        let tot = cols[0].len();
        let r = reference(&p, &pos, false);
        rep.states_keyed(hash_str(&k), tot);
        rep.sample(|| format!("{k}: {tot} points"));
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let mut base: Option<(Entry, Vec<T>)> = None;
        let mut worst: f64 = 0.0;
        for e in ents(t.kind, nd) {
            for fill in [T::nan(), T::of(0.1234)] {
                if !rep.thorough && tot > 3000 && (fill.is_nan() == (e == Entry::Rec(nd))) {
                    continue;
                }
                let mut out = vec![fill; tot];
                if let Err(m) = eval(&p, e, &os, &mut out) {
                    rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                    continue;
                }
                let Some((e0, b)) = &base else {
                    rep.outcomes_bulk(out.iter().map(|o| o.bits()));
                    base = Some((e, out));
                    continue;
                };
                let mut ok = true;
                for j in 0..tot {
                    if r.amb[j] {
                        continue;
                    }
                    let d = if b[j] == out[j] { 0.0 } else { (b[j] - out[j]).dd().hi.abs() };
                    let tol = if t.kind == Kind::Nearest { 1e-300 } else { T::EPS * r.tol[j] + 1e-300 };
                    if !(d <= tol) {
                        rep.violation(&k, format!("{e0:?} gives {:?} but {e:?} (output filled with {fill:?} before) gives {:?}; {}", b[j], out[j], describe(&p, &cols, j)));
                        ok = false;
                        break;
                    }
                    worst = worst.max(d / tol);
                }
                if ok {
                    rep.trace(tot);
                }
            }
        }
        if worst > rep.maxratio() {
            rep.ratio(worst, || k.clone());
        }
    });
}

fn main() {
    let rep = Rep::new("C07");
    let th = rep.thorough;
    let mut v = vec![];
    for (kind, regular, lin) in methods() {
        let m = kind.min_n();
        for nd in 1..=kind.max_dims() {
            for sp in mixes(regular, nd) {
                let mk = |dims: Vec<usize>, lv, free, special| T1 { kind, regular, lin, sp: sp.clone(), dims, lv, free, special, fine: None };
                let small: Vec<Vec<usize>> = match nd {
                    1 => (m..m + 12).chain([65, 129, 257, 1025, 66000]).map(|n| vec![n]).collect(),
                    2 => power(&[m, m + 1, m + 2, m + 5], 2).into_iter().chain([vec![257, m + 1], vec![m, 257]]).collect(),
                    3 => power(&[m, m + 1, m + 2], 3),
                    4 => power(&[m, m + 1], 4),
                    _ => vec![vec![m; nd], (0..nd).map(|a| m + (a % 2)).collect(), (0..nd).map(|a| m + (a == nd - 1) as usize).collect(), (0..nd).map(|a| m + (a == 0) as usize).collect()],
                };
                for a in 0..if kind == Kind::Cubic && nd > 6 && !th { 0 } else { nd } {
                    let mut t = mk((0..nd).map(|b| m + (b == a && nd < 7) as usize).collect(), Level::Core, None, false);
                    t.fine = Some(a);
                    v.push(t);
                }
                if !regular && nd <= 3 {
                    let mut t = mk((0..nd).map(|b| m + 1 + b).collect(), if nd == 3 { Level::Core } else { Level::Full }, None, false);
                    let bits: Vec<Vec<Spacing>> = if nd == 1 { vh::shapes::bits(regular, m + 1).into_iter().map(|s| vec![s]).collect() } else { vec![] };
                    for s in vh::shapes::odd(regular, nd).into_iter().chain([vec![Spacing::NearEven; nd]]).chain(bits) {
                        t.sp = s;
                        v.push(t.clone());
                    }
                }
                for dims in small {
                    let work = dims.iter().product::<usize>();
                    match nd {
                        1 => v.push(mk(dims, if work > 2000 { Level::Mid } else { Level::Full }, None, false)),
                        2 => v.push(mk(dims, if work > 300 { Level::Mid } else { Level::Full }, None, false)),
                        3 => v.push(mk(dims, if th && kind != Kind::Cubic { Level::Mid } else { Level::Core }, None, false)),
                        4 => v.push(mk(dims, if kind == Kind::Cubic && !th { Level::Sides } else { Level::Core }, None, false)),
                        5 | 6 if kind != Kind::Cubic => v.push(mk(dims, if th { Level::Core } else { Level::Sides }, None, false)),
                        _ => {
                            if !th && work > 70_000 {
                                continue;
                            }
                            for a in 0..nd {
                                for b in a + 1..nd {
                                    if !th && nd > 6 && (a + b) % 3 != 0 && kind == Kind::Cubic {
                                        continue;
                                    }
                                    v.push(mk(dims.clone(), if kind == Kind::Cubic { Level::Sides } else { Level::Core }, Some((a, b, a + b)), false));
                                }
                            }
                        }
                    }
                }
                if nd <= if kind == Kind::Cubic { 5 } else { 8 } {
                    v.push(mk(vec![m; nd], Level::Core, None, true));
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse(t.dims.iter().product::<usize>()));
    rep.note("configurations", 2 * v.len() as u64);
    rep.par(&v, |t| {
        run::<f64>(&rep, t);
        run::<f32>(&rep, t);
    });
    rep.finish()
}
