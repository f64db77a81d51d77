//! C27: the 1-D grids' own lookup names the cell that holds the point, and the 1-D rules work on any
//! grid and any rule a user supplies through the public traits.
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Extrap, Grid1D, GridSample, Interp1D, RectilinearGrid1D, RegularGrid1D};
use std::cell::Cell;
use vh::gen_::*;
use vh::num::{DD, Elt};
use vh::onedim::*;
use vh::report::{Rep, hash_str};

fn side(e: &Extrap) -> i8 {
    match e {
        Extrap::Inside => 0,
        Extrap::OutsideLow => -1,
        Extrap::OutsideHigh => 1,
    }
}

struct Ctx<'a, T> {
    rep: &'a Rep,
    key: &'a str,
    nodes: &'a [DD],
    vals: &'a [T],
    exact: bool,
    regular: bool,
}

/// One lookup: index and flag, and the sample, against the definition.
fn judge<T: Elt>(c: &Ctx<T>, x: T, ix: Result<(usize, Extrap), &'static str>, at: Result<GridSample<T>, &'static str>) -> bool {
    let n = c.nodes.len();
    let bad = |m: String| {
        c.rep.violation(c.key, format!("at {x:?}: {m}"));
        false
    };
    let (i, e) = match ix {
        Ok(v) => v,
        Err(m) => return bad(format!("index: unexpected error {m:?}")),
    };
    let s = match at {
        Ok(v) => v,
        Err(m) => return bad(format!("at: unexpected error {m:?}")),
    };
    if i > n - 2 {
        return bad(format!("index {i} is not a cell of {n} nodes"));
    }
    let xd = x.dd();
    let big = c.nodes[0].hi.abs().max(c.nodes[n - 1].hi.abs());
    let near = if c.exact { 0.0 } else { 4.0 * T::EPS * big.max(xd.hi.abs()) };
    // flags
    let lo = (xd - c.nodes[0]).hi;
    let hi = (xd - c.nodes[n - 1]).hi;
    let want = if lo < 0.0 { -1 } else if hi > 0.0 { 1 } else { 0 };
    let clear = lo.abs() > near && hi.abs() > near || c.exact;
    if clear && side(&e) != want {
        return bad(format!("flag {} instead of {want}", side(&e)));
    }
    if side(&e) != side(&s.extrap) {
        return bad(format!("index says {}, at says {}", side(&e), side(&s.extrap)));
    }
    // the cell
    // a regular grid's quotient (x - start) / step is itself rounded
    let near = if c.regular { 4.0 * T::EPS * big.max(xd.hi.abs()) } else { 0.0 };
    let ok = match if clear { want } else { 0 } {
        -1 => i == 0,
        1 => i == n - 2,
        _ => (xd - c.nodes[i]).hi >= -near && (xd - c.nodes[i + 1]).hi <= near,
    };
    if !ok {
        return bad(format!("cell {i} ({:?} to {:?}) does not hold it", c.nodes[i].hi, c.nodes[i + 1].hi));
    }
    if !s.y0.same(c.vals[i]) || !s.y1.same(c.vals[i + 1]) {
        return bad(format!("values {:?}, {:?} are not those of cell {i}", s.y0, s.y1));
    }
    let tol = if c.exact { 0.0 } else { 3.0 * T::EPS * big };
    if !((s.x0.dd() - c.nodes[i]).hi.abs() <= tol && (s.x1.dd() - c.nodes[i + 1]).hi.abs() <= tol) {
        return bad(format!("nodes {:?}, {:?} are not those of cell {i}", s.x0, s.x1));
    }
    true
}

/// A grid a user may write: nodes by formula (2^i * step + start), or a window of another grid, or one with a
/// hole where the lookup fails. Counts its lookups.
struct Own<'a, T> {
    nodes: &'a [T],
    vals: &'a [T],
    hole: Option<usize>,
    calls: &'a Cell<usize>,
}
impl<'a, T: Elt> Grid1D<'a, T> for Own<'a, T> {
    fn at(&self, loc: T) -> Result<GridSample<T>, &'static str> {
        self.calls.set(self.calls.get() + 1);
        let n = self.nodes.len();
        let mut i = 0;
        while i + 2 < n && loc >= self.nodes[i + 1] {
            i += 1;
        }
        if self.hole == Some(i) {
            return Err("hole");
        }
        let extrap = if loc < self.nodes[0] {
            Extrap::OutsideLow
        } else if loc > self.nodes[n - 1] {
            Extrap::OutsideHigh
        } else {
            Extrap::Inside
        };
        Ok(GridSample { x0: self.nodes[i], y0: self.vals[i], x1: self.nodes[i + 1], y1: self.vals[i + 1], extrap })
    }
}
/// A rule a user may write: only eval_one; the batch forms come from the trait.
struct Mine<G> {
    g: G,
}
impl<'a, T: Elt, G: Grid1D<'a, T>> Interp1D<'a, T, G> for Mine<G> {
    fn eval_one(&self, loc: T) -> Result<T, &'static str> {
        let s = self.g.at(loc)?;
        Ok(s.y0 - s.y1 + loc)
    }
}

fn own<'a, T: Elt, I: Interp1D<'a, T, Own<'a, T>>>(rep: &Rep, key: &str, name: &str, it: &I, calls: &Cell<usize>, locs: &[T], want: &[Option<(DD, f64)>]) {
    let bad = |m: String| rep.violation(key, format!("{name}: {m}"));
    for (l, w) in locs.iter().zip(want) {
        let before = calls.get();
        let r = it.eval_one(*l);
        if calls.get() == before {
            return bad(format!("at {l:?}: the grid was not asked"));
        }
        match (r, w) {
            (Err("hole"), None) => {}
            (Ok(v), Some((w, tol))) if (v.dd() - *w).hi.abs() <= *tol => {}
            (r, w) => return bad(format!("at {l:?}: got {r:?}, expected {w:?}")),
        }
    }
    // the batch forms, on every run of consecutive locations of lengths 0..=4 and the whole list
    let n = locs.len();
    for len in (0..=4.min(n)).chain([n]) {
        for s in 0..=n - len {
            let (xs, ws) = (&locs[s..s + len], &want[s..s + len]);
            let mut out = vec![T::of(-77.0); len];
            let r = it.eval(xs, &mut out);
            let a = it.eval_alloc(xs);
            let fail = ws.iter().any(|w| w.is_none());
            if r.is_err() != fail || a.is_err() != fail {
                return bad(format!("batch {xs:?}: {r:?}, {a:?}"));
            }
            if fail {
                if r != Err("hole") || a.as_ref().err() != Some(&"hole") {
                    return bad(format!("batch {xs:?}: the grid's own error is lost: {r:?}, {a:?}"));
                }
                continue;
            }
            let a = a.unwrap();
            for (j, w) in ws.iter().enumerate() {
                let (w, tol) = w.unwrap();
                if a.len() != len || !((out[j].dd() - w).hi.abs() <= tol) || !((a[j].dd() - w).hi.abs() <= tol) {
                    return bad(format!("batch {xs:?}: {out:?}, {a:?}"));
                }
            }
            // a list and an output of different lengths
            let mut longer = vec![T::zero(); len + 1];
            if it.eval(xs, &mut longer).is_ok() || len > 0 && it.eval(xs, &mut longer[..len - 1]).is_ok() {
                return bad(format!("batch of {len} accepted with an output of another length"));
            }
        }
    }
    rep.trace(n);
}

fn lookup<T: Elt>(rep: &Rep, sp: Spacing, regular: bool, n: usize) {
    let key = format!("lookup/{}/{sp:?}/{}/n={n}", T::NAME, if regular { "regular" } else { "rectilinear" });
    rep.case(&key, || {
        let (s, h, g) = axis::<T>(sp, n, n);
        let vals: Vec<T> = dense(n, 3);
        let nodes: Vec<DD> = if regular { (0..n).map(|i| s.dd() + h.dd() * DD::from_f64(i as f64)).collect() } else { g.iter().map(|x| x.dd()).collect() };
        let mut pos = positions(&g, if n > 300 { Level::Mid } else { Level::Full });
        if n <= 40 {
            pos.extend(positions(&g, Level::Fine));
        }
        let span = g[n - 1] - g[0];
        for k in [1e3, 1e6, 1e9, 1e12] {
            pos.push(g[0] - span * T::of(k));
            pos.push(g[n - 1] + span * T::of(k));
        }
        let c = Ctx { rep, key: &key, nodes: &nodes, vals: &vals, exact: !regular || sp.exact(), regular };
        let kh = hash_str(&key);
        rep.states_keyed(kh, pos.len());
        rep.sample(|| format!("{key}: nodes {:?}..", &g[..n.min(5)]));
        let order: Vec<usize> = if n <= 6 { de_bruijn(pos.len(), 2) } else { (0..pos.len()).chain((0..pos.len()).rev()).collect() };
        let ok = if regular {
            let gr = RegularGrid1D::new(s, h, &vals).unwrap();
            let copy = gr;
            order.iter().all(|&k| judge(&c, pos[k], gr.index(pos[k]), copy.at(pos[k])))
        } else {
            let gr = RectilinearGrid1D::new(&g, &vals).unwrap();
            let copy = gr;
            order.iter().all(|&k| judge(&c, pos[k], gr.index(pos[k]), copy.at(pos[k])))
        };
        if ok {
            rep.trace(order.len());
            rep.outcomes_bulk(pos.iter().map(|x| x.bits()));
        }
    });
}

fn users<T: Elt>(rep: &Rep, kind: u8, n: usize, hole: Option<usize>) {
    let key = format!("users/{}/kind={kind}/n={n}/hole={hole:?}", T::NAME);
    rep.case(&key, || {
        // by formula: 3 * 2^i - 5; a window of a longer grid; a grid with a repeated node (a step)
        let nodes: Vec<T> = match kind {
            0 => (0..n).map(|i| T::of(3.0 * 2f64.powi(i as i32) - 5.0)).collect(),
            1 => (0..n).map(|i| T::of((i + 7) as f64 * 0.25)).collect(),
            _ => (0..n).map(|i| T::of(((i * i + i) as f64) * -0.5)).rev().collect(),
        };
        let vals: Vec<T> = dense(n, 9);
        let (nd, vd): (Vec<DD>, Vec<DD>) = (nodes.iter().map(|x| x.dd()).collect(), vals.iter().map(|x| x.dd()).collect());
        let my = vd.iter().map(|v| v.hi.abs()).fold(0.0, f64::max);
        let mut locs = positions(&nodes, Level::Full);
        if n <= 3 {
            locs.extend(positions(&nodes, Level::Fine));
        }
        for w in nodes.windows(2) {
            locs.push((w[0] + w[1]) / T::of(2.0));
        }
        rep.states_keyed(hash_str(&key), locs.len() * 6);
        let cellof = |x: T| (0..n - 1).rev().find(|&i| i == 0 || x >= nodes[i]).unwrap();
        let calls = Cell::new(0);
        let mk = || Own { nodes: &nodes, vals: &vals, hole, calls: &calls };
        let wants = |rule: Rule| -> Vec<Option<(DD, f64)>> {
            locs.iter()
                .map(|x| {
                    if hole == Some(cellof(*x)) {
                        return None;
                    }
                    let (w, err, amb) = ref1(rule, &nd, &vd, my, x.dd(), T::EPS, true, true);
                    // within rounding of a midpoint: either neighbour
                    Some((w, if amb { f64::INFINITY } else { T::EPS * err }))
                })
                .collect()
        };
        own(rep, &key, "Linear1D", &Linear1D::new(mk()), &calls, &locs, &wants(Rule::Linear));
        own(rep, &key, "LinearHoldLast1D", &LinearHoldLast1D::new(mk()), &calls, &locs, &wants(Rule::Hold));
        own(rep, &key, "Left1D", &Left1D::new(mk()), &calls, &locs, &wants(Rule::Left));
        own(rep, &key, "Right1D", &Right1D::new(mk()), &calls, &locs, &wants(Rule::Right));
        own(rep, &key, "Nearest1D", &Nearest1D::new(mk()), &calls, &locs, &wants(Rule::Nearest));
        let mine: Vec<_> = locs
            .iter()
            .map(|x| {
                let i = cellof(*x);
                (hole != Some(i)).then(|| ((vals[i] - vals[i + 1] + *x).dd(), 0.0))
            })
            .collect();
        own(rep, &key, "user rule", &Mine { g: mk() }, &calls, &locs, &mine);
    });
}

fn main() {
    let rep = Rep::new("C27");
    let th = rep.thorough;
    let mut items = vec![];
    for sp in Spacing::ALL.into_iter().chain([Spacing::NearEven, Spacing::Odd(0, 13), Spacing::Odd(1, -14), Spacing::Odd(2, 12)]) {
        for regular in [true, false] {
            if regular && !sp.even() {
                continue;
            }
            for n in (2..=if th { 40 } else { 12 }).chain([17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 513, 1025, 4099, 32769, 65540, 131073]) {
                if n > 5000 && sp != Spacing::EvenDyadic && sp != Spacing::UnevenGeneric {
                    continue;
                }
                items.push((0u8, sp, regular, n, None));
            }
        }
    }
    for kind in 0..3u8 {
        for n in 2..=if th { 16 } else { 8 } {
            for hole in std::iter::once(None).chain((0..n - 1).map(Some)) {
                items.push((kind + 1, Spacing::EvenDyadic, false, n, hole));
            }
        }
    }
    rep.par(&items, |&(k, sp, reg, n, hole)| {
        if k == 0 {
            lookup::<f64>(&rep, sp, reg, n);
            lookup::<f32>(&rep, sp, reg, n);
        } else {
            users::<f64>(&rep, k - 1, n, hole);
            users::<f32>(&rep, k - 1, n, hole);
        }
    });
    rep.finish()
}
