//! C08: a regular grid and the rectilinear grid with the same nodes give the same results.
use vh::conf::{describe, key, reference};
use vh::gen_::*;
use vh::iface::*;
use vh::num::{DD, Elt};
use vh::onedim::*;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

struct T1 {
    kind: Kind,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    lv: Level,
    free: Option<(usize, usize, usize)>,
    /// this axis at graded distances, the others at one position
    fine: Option<usize>,
}

fn run<T: Elt>(rep: &Rep, t: &T1) {
    let nd = t.dims.len();
    let p = problem::<T>(t.kind, true, t.lin, &t.sp, &t.dims, 23);
    let mut q = p.clone();
    q.regular = false;
    let exact = t.sp.iter().all(|s| s.exact());
    let k = key(&p, &format!("{}/{:?}/{:?}/{:?}", sp_tag(&t.sp), t.lv, t.free, t.fine).replace(' ', ""));
    rep.case(&k, || {
        let mut pos: Vec<Vec<T>> = (0..nd).map(|a| positions(&p.grids[a], t.lv)).collect();
        if let Some((a, b, s)) = t.free {
            for x in 0..nd {
                if x != a && x != b {
                    pos[x] = vec![pos[x][(x * 5 + s) % pos[x].len()]];
                }
            }
        }
        if let Some(a) = t.fine {
            for x in 0..nd {
                pos[x] = if x == a { positions(&p.grids[x], Level::Fine) } else { vec![pos[x][(x * 5 + a) % pos[x].len()]] };
            }
        }
        let cols = product_obs(&pos);
        let tot = cols[0].len();
        let r = reference(&p, &pos, exact);
        rep.states_keyed(hash_str(&k), tot);
        rep.sample(|| format!("{k}: {tot} points"));
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        // rounded node coordinates tilt a continued edge cell: the effect grows with the distance outside
        let mult = |j: usize| -> f64 {
            if exact {
                return 1.0;
            }
            (0..nd)
                .map(|a| {
                    let (x, g) = (cols[a][j].f(), &p.grids[a]);
                    let (l, h) = (g[0].f(), g[g.len() - 1].f());
                    1.0 + ((l - x).max(x - h).max(0.0)) / p.steps[a].f()
                })
                .fold(1.0, f64::max)
        };
        let mut worst: f64 = 0.0;
        for e in few(t.kind, nd) {
            let (mut a, mut b) = (vec![T::nan(); tot], vec![T::nan(); tot]);
            let (ra, rb) = (eval(&p, e, &os, &mut a), eval(&q, e, &os, &mut b));
            if ra.is_err() || rb.is_err() {
                rep.violation(&k, format!("{e:?}: regular {ra:?} rectilinear {rb:?}"));
                continue;
            }
            let mut ok = true;
            for j in 0..tot {
                if r.amb[j] {
                    continue;
                }
                let d = if a[j] == b[j] { 0.0 } else { (a[j] - b[j]).dd().hi.abs() };
                let tol = if t.kind == Kind::Nearest { 1e-300 } else { 2.0 * mult(j) * T::EPS * r.tol[j] + 1e-300 };
                if !(d <= tol) {
                    rep.violation(&k, format!("{e:?}: regular {:?}, rectilinear {:?}; {}", a[j], b[j], describe(&p, &cols, j)));
                    ok = false;
                    break;
                }
                worst = worst.max(d / tol);
            }
            if ok {
                rep.trace(2 * tot);
                rep.outcomes_bulk(a.iter().map(|o| o.bits()));
            }
        }
        if worst > rep.maxratio() {
            rep.ratio(worst, || k.clone());
        }
        // bounds report: exactly the same on exact grids; per point, on each axis
        if exact && t.free.is_none() {
            let g: Vec<&[T]> = p.grids.iter().map(|g| &g[..]).collect();
            for atol in [0.0, 0.125, 1.0] {
                let at = T::of(atol);
                for j in (0..tot).step_by(if tot > 2000 { 37 } else { 1 }) {
                    let o: Vec<&[T]> = cols.iter().map(|c| &c[j..=j]).collect();
                    let mut fl = [[false; 8], [true; 8], [false; 8], [true; 8]];
                    let _ = interpn::multilinear::regular::check_bounds(&p.dims, &p.starts, &p.steps, &o, at, &mut fl[0][..nd]);
                    let _ = interpn::multilinear::rectilinear::check_bounds(&g, &o, at, &mut fl[1][..nd]);
                    let _ = interpn::multilinear::regular_recursive::check_bounds(&p.dims, &p.starts, &p.steps, &o, at, &mut fl[2][..nd]);
                    let _ = interpn::multilinear::rectilinear_recursive::check_bounds(&g, &o, at, &mut fl[3][..nd]);
                    for i in 1..4 {
                        if fl[i][..nd] != fl[0][..nd] {
                            rep.violation(&k, format!("bounds flags {:?} and {:?} (atol {atol}); {}", &fl[0][..nd], &fl[i][..nd], describe(&p, &cols, j)));
                            return;
                        }
                    }
                }
            }
        }
    });
}

fn one<T: Elt>(rep: &Rep, sp: Spacing, n: usize) {
    let (s, h, g) = axis::<T>(sp, n, 1);
    let vals: Vec<T> = dense(n, 9);
    let k = format!("1d/{}/{n}/{}", sp_tag(&[sp]), T::NAME);
    rep.case(&k, || {
        let mut locs = positions(&g, Level::Full);
        if n < 300 {
            locs.extend(positions(&g, Level::Fine));
        }
        rep.states_keyed(hash_str(&k), locs.len() * 5);
        let nodes: Vec<DD> = (0..n).map(|i| s.dd() + h.dd() * DD::from_f64(i as f64)).collect();
        let dds: Vec<DD> = vals.iter().map(|v| v.dd()).collect();
        for rule in Rule::ALL {
            let (mut a, mut b) = (vec![T::nan(); locs.len()], vec![T::nan(); locs.len()]);
            let ra = eval1(&G1::Reg(s, h), &vals, rule, How::Batch, &locs, &mut a);
            let rb = eval1(&G1::Rect(&g), &vals, rule, How::Batch, &locs, &mut b);
            if ra.is_err() || rb.is_err() {
                rep.violation(&k, format!("{rule:?}: regular {ra:?} rectilinear {rb:?}"));
                continue;
            }
            for j in 0..locs.len() {
                let (_, err, amb) = ref1(rule, &nodes, &dds, 1.0, locs[j].dd(), T::EPS, false, sp.exact());
                if amb {
                    continue;
                }
                let d = if a[j] == b[j] { 0.0 } else { (a[j] - b[j]).dd().hi.abs() };
                if !(d <= 2.0 * err * T::EPS) {
                    rep.violation(&k, format!("{rule:?} at {:?}: regular {:?}, rectilinear {:?}", locs[j], a[j], b[j]));
                    break;
                }
            }
            rep.trace(2 * locs.len());
        }
    });
}

fn main() {
    let rep = Rep::new("C08");
    let th = rep.thorough;
    let mut v = vec![];
    for kind in Kind::ALL {
        for &lin in lins(kind) {
            let m = kind.min_n();
            for nd in 1..=kind.max_dims() {
                let mut ms = mixes(true, nd);
                ms.push(vec![Spacing::EvenDyadic; nd]);
                for sp in ms {
                    let mk = |dims: Vec<usize>, lv, free| T1 { kind, lin, sp: sp.clone(), dims, lv, free, fine: None };
                    let shapes: Vec<Vec<usize>> = match nd {
                        1 => (m..m + 20).chain([65, 129, 257, 1025, 4097, 66000]).map(|n| vec![n]).collect(),
                        2 => power(&[m, m + 1, m + 2, m + 5], 2).into_iter().chain([vec![257, m + 1], vec![m, 257]]).collect(),
                        3 => power(&[m, m + 1, m + 2], 3),
                        4 => power(&[m, m + 1], 4),
                        _ => vec![vec![m; nd], (0..nd).map(|a| m + (a % 2)).collect(), (0..nd).map(|a| m + (a == nd - 1) as usize).collect()],
                    };
                    for a in 0..if kind == Kind::Cubic && nd > 6 && !th { 0 } else { nd } {
                        let mut t = mk((0..nd).map(|b| m + (b == a && nd < 7) as usize).collect(), Level::Core, None);
                        t.fine = Some(a);
                        v.push(t);
                    }
                    for dims in shapes {
                        let work = dims.iter().product::<usize>();
                        match nd {
                            1 | 2 => v.push(mk(dims, if work > 300 { Level::Mid } else { Level::Full }, None)),
                            3 => v.push(mk(dims, if th && kind != Kind::Cubic { Level::Mid } else { Level::Core }, None)),
                            4 => v.push(mk(dims, Level::Core, None)),
                            5 | 6 if kind != Kind::Cubic => v.push(mk(dims, if th || nd == 5 { Level::Core } else { Level::Sides }, None)),
                            5 if th => v.push(mk(dims, Level::Sides, None)),
                            _ => {
                                if !th && work > 70_000 {
                                    continue;
                                }
                                for a in 0..nd {
                                    for b in a + 1..nd {
                                        v.push(mk(dims.clone(), Level::Core, Some((a, b, a + b))));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse(t.dims.iter().product::<usize>()));
    rep.par(&v, |t| {
        run::<f64>(&rep, t);
        run::<f32>(&rep, t);
    });
    let mut w = vec![];
    for sp in [Spacing::EvenDyadic, Spacing::EvenGeneric] {
        for n in (2..=if th { 200 } else { 40 }).chain([127, 128, 129, 255, 256, 257, 1025, 4097, 65540]) {
            w.push((sp, n));
        }
    }
    rep.par(&w, |&(sp, n)| {
        one::<f64>(&rep, sp, n);
        one::<f32>(&rep, sp, n);
    });
    rep.finish()
}
