//! C05: the one-dimensional interpolators follow their rule on both grid kinds.
use vh::gen_::*;
use vh::num::{DD, Elt};
use vh::onedim::*;
use vh::report::{Rep, hash_str};

const SCALE_UP: usize = 1000;
const SCALE_DOWN: usize = 1001;
const FLAT0: usize = 2000;
const FLAT1: usize = 2001;

fn one<T: Elt>(rep: &Rep, sp: Spacing, regular: bool, n: usize, table: usize, tour: u8, tt: &str) {
    let key = format!("{tt}/{sp:?}/{}/n={n}/table={table}/tour={tour}", if regular { "regular" } else { "rectilinear" });
    rep.case(&key, || {
        let (s, h, g) = axis::<T>(sp, n, n + table % 1000);
        let mut vals: Vec<T> = if table == 0 { dense(n, 3) } else { vec![T::zero(); n] };
        match table {
            0 => {}
            SCALE_UP | SCALE_DOWN => {
                let f = T::of(2f64.powi(if table == SCALE_UP { 60 } else { -80 }));
                vals = dense::<T>(n, 5).into_iter().map(|v| v * f).collect();
            }
            FLAT0 | FLAT1 => vals = plateau(&[n], table - FLAT0),
            k => vals[k - 1] = T::of(0.75),
        }
        let nodes: Vec<DD> = if regular {
            (0..n).map(|i| s.dd() + h.dd() * DD::from_f64(i as f64)).collect()
        } else {
            g.iter().map(|x| x.dd()).collect()
        };
        let vd: Vec<DD> = vals.iter().map(|v| v.dd()).collect();
        let mut pos = positions(&g, if tour == 3 { Level::Core } else if n > 300 { Level::Mid } else { Level::Full });
        if tour < 2 && n <= 40 {
            pos.extend(positions(&g, Level::Fine));
        }
        if tour == 3 {
            pos.push(g[0]);
            pos.push(g[n - 1]);
            pos.push(g[n / 2]);
        }
        let span = g[n - 1] - g[0];
        pos.push(g[0] - span * T::of(1e6));
        pos.push(g[n - 1] + span * T::of(1e6));
        for i in 0..n - 1 {
            // exact and nearly exact midpoints
            let m = g[i] + (g[i + 1] - g[i]) / T::of(2.0);
            if n <= 300 && tour != 3 {
                pos.extend([m, m.next_up_(), m.next_down_()]);
            }
        }
        if n > 300 {
            pos.extend(g.iter().take(2000).copied());
        }
        let idx: Vec<usize> = match tour {
            0 => (0..pos.len()).collect(),
            1 => (0..pos.len()).rev().collect(),
            2 => de_bruijn(pos.len(), 2),
            _ => de_bruijn(pos.len(), 3),
        };
        let locs: Vec<T> = idx.iter().map(|&i| pos[i]).collect();
        let kh = hash_str(&key);
        rep.states_bulk((0..pos.len() as u64 * 5).map(|i| kh.wrapping_add(i)));
        rep.sample(|| format!("{key}: nodes {:?}.., locations {:?}..", &g[..n.min(5)], &locs[..3]));
        let my = vd.iter().map(|v| v.hi.abs()).fold(0.0, f64::max);
        let gr = if regular { G1::Reg(s, h) } else { G1::Rect(&g) };
        for rule in Rule::ALL {
            let want: Vec<(DD, f64, bool)> = pos.iter().map(|x| ref1(rule, &nodes, &vd, my, x.dd(), T::EPS, !regular, sp.exact())).collect();
            for how in [How::Batch, How::One, How::Alloc] {
                let mut out = vec![T::nan(); locs.len()];
                if let Err(e) = eval1(&gr, &vals, rule, how, &locs, &mut out) {
                    rep.violation(&key, format!("{rule:?} {how:?}: unexpected error {e:?}"));
                    continue;
                }
                let mut ok = true;
                let mut worst: f64 = 0.0;
                for (j, o) in out.iter().enumerate() {
                    let (v, err, amb) = want[idx[j]];
                    if amb {
                        rep.skipped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        continue;
                    }
                    let diff = (o.dd() - v).hi.abs();
                    let tol = T::EPS * err;
                    if !(diff <= tol) {
                        rep.violation(&key, format!("{rule:?} {how:?} at {:?}: got {:?}, expected {:?}; nodes {:?} vals {:?}", locs[j], o, v.hi, &g[..n.min(12)], &vals[..n.min(12)]));
                        ok = false;
                        break;
                    }
                    if err > 0.0 {
                        worst = worst.max(diff / tol);
                    }
                }
                if ok {
                    rep.trace(out.len());
                    if worst > rep.maxratio() {
                        rep.ratio(worst, || format!("{key} {rule:?}"));
                    }
                    rep.outcomes_bulk(out.iter().map(|o| o.bits()));
                }
            }
        }
    });
}

fn main() {
    let rep = Rep::new("C05");
    let mut items = vec![];
    let top = if rep.thorough { 24 } else { 10 };
    for sp in Spacing::ALL.into_iter().chain([Spacing::NearEven, Spacing::Odd(0, 13), Spacing::Odd(1, -14), Spacing::Odd(2, 12)]) {
        for regular in [true, false] {
            if regular && !sp.even() {
                continue;
            }
            for n in (2..=top).chain([17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 513, 1025, 4099, 65540]) {
                if n > 5000 && sp != Spacing::EvenDyadic && sp != Spacing::UnevenGeneric {
                    continue;
                }
                for tour in 0..4u8 {
                    if tour >= 2 && n > (if rep.thorough { 12 } else { 6 }) && !(tour == 3 && n < 300) {
                        continue;
                    }
                    items.push((sp, regular, n, 0usize, tour));
                }
                if n <= 8 {
                    for t in (1..=n).chain([SCALE_UP, SCALE_DOWN, FLAT0, FLAT1]) {
                        items.push((sp, regular, n, t, 0));
                    }
                }
            }
        }
    }
    items.reverse();
    rep.par(&items, |&(sp, reg, n, t, tour)| {
        one::<f64>(&rep, sp, reg, n, t, tour, "f64");
        one::<f32>(&rep, sp, reg, n, t, tour, "f32");
    });
    rep.finish()
}
