//! C24: rounding error on hard configurations, against the same formula in double-double arithmetic,
//! with the table's local magnitude as the yardstick; and the crate itself instantiated in double-double.
use vh::conf::key;
use vh::gen_::*;
use vh::iface::*;
use vh::num::{DD, Elt};
use vh::onedim::*;
use vh::refm;
use vh::report::{Rep, hash_str, mix};
use vh::shapes::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Hard {
    /// a million steps (f32: ten thousand) from the origin
    Offset,
    OffsetNeg,
    /// steps that are tiny next to the coordinates
    Fine,
    /// everything tiny, everything huge
    Small,
    Coarse,
    /// steps that are not representable, many of them
    Third,
    /// neighbouring spacings in the ratio 1 : 1e6 (f32: 1e3)
    Ratio,
    RatioB,
    /// growing and shrinking by a constant factor
    Geo,
    GeoDown,
    /// fine around zero, coarse outside
    Cross,
}
use Hard::*;
const REG: [Hard; 6] = [Offset, OffsetNeg, Fine, Small, Coarse, Third];
const RECT: [Hard; 9] = [Offset, Fine, Small, Coarse, Ratio, RatioB, Geo, GeoDown, Cross];

fn axis_of<T: Elt>(h: Hard, n: usize, a: usize) -> (T, T, Vec<T>) {
    let single = T::EPS > 1e-10;
    let af = a as f64;
    let even = |s: f64, st: f64| -> (T, T, Vec<T>) {
        let (s, st) = (T::of(s), T::of(st));
        (s, st, (0..n).map(|i| s + st * T::of(i as f64)).collect())
    };
    let list = |v: Vec<f64>| -> (T, T, Vec<T>) {
        let v: Vec<T> = v.into_iter().map(T::of).collect();
        (v[0], v[1] - v[0], v)
    };
    let r = if single { 1e-3 } else { 1e-6 };
    match h {
        Offset => even(if single { 1e3 } else { 1e5 } * (1.0 + 0.37 * af) + 0.3, 0.1),
        OffsetNeg => even(if single { -1e3 } else { -1e5 } * (1.0 + 0.21 * af) - 0.7, 0.1 + 0.03 * af),
        Fine => even(1.3 + af, if single { 1e-3 } else { 1e-9 }),
        Small => even(2e-12 * (af - 0.5), 3e-13),
        Coarse => even(-3e11 + 7e10 * af, 1.7e11),
        Third => even(1.0 / 3.0 - af, 1.0 / 3.0 + 0.01 * af),
        Ratio | RatioB => {
            let incs = if h == Ratio { [1.0, r, 1.1, r * 30.0, 0.7 * r, 1.0 / 3.0] } else { [r * 1.7, r, 1.3, 1.0, r * 3.0, 0.3] };
            let mut x = -1.7 + 0.6 * af;
            let mut v = vec![];
            for i in 0..n {
                v.push(x);
                x += incs[(i + a) % 6];
            }
            list(v)
        }
        Geo => {
            let q: f64 = if n > 12 { 1.01 } else { 11.0 };
            list((0..n).map(|i| 0.013 * q.powi(i as i32)).collect())
        }
        GeoDown => {
            let q: f64 = if n > 12 { 1.01 } else { 7.0 };
            list((0..n).map(|i| -1.3 * q.powi((n - 1 - i) as i32)).collect())
        }
        Cross => list((0..n).map(|i| { let k = i as f64 - (n as f64 - 1.0) / 2.0; if n > 12 { k * k * k * 1e-3 + k * 1e-4 } else { k.signum() * 0.3 * (10f64).powf(k.abs() * 1.5 - 3.0) * if k == 0.0 { 0.0 } else { 1.0 } } }).collect()),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Tab {
    Dense,
    /// magnitudes fall by 100 per index step along every axis: results deep in the table are tiny
    Graded,
    /// one huge entry far from most points
    Spike,
    /// large common offset
    Lifted,
}
const TABS: [Tab; 4] = [Tab::Dense, Tab::Graded, Tab::Spike, Tab::Lifted];
fn table<T: Elt>(t: Tab, dims: &[usize]) -> Vec<T> {
    let tot: usize = dims.iter().product();
    (0..tot)
        .map(|i| {
            let v = ((mix(i as u64 ^ (9 << 40)) % 2047) as f64 - 1023.0) / 1000.0;
            let mut r = i;
            let mut s = 0usize;
            for &n in dims.iter().rev() {
                s += r % n;
                r /= n;
            }
            let v = if v == 0.0 { 0.5 } else { v };
            T::of(match t {
                Tab::Dense => v,
                Tab::Graded => v * 10f64.powf(-2.0 * (s.min(14) as f64)),
                Tab::Spike => if i == 0 { 1e6 } else { v * 1e-3 },
                Tab::Lifted => 1000.0 + v,
            })
        })
        .collect()
}

/// |v| maximised over the footprints (per axis) of every point of the product.
fn local_max(dims: &[usize], vals: &[f64], foot: &[Vec<(usize, usize)>]) -> Vec<f64> {
    let mut cur = vals.to_vec();
    let mut shape = dims.to_vec();
    for a in (0..dims.len()).rev() {
        let outer: usize = shape[..a].iter().product();
        let inner: usize = shape[a + 1..].iter().product();
        let (n, p) = (shape[a], foot[a].len());
        let mut nxt = vec![0.0f64; outer * p * inner];
        for o in 0..outer {
            for (pi, &(s, e)) in foot[a].iter().enumerate() {
                for k in s..e {
                    for i in 0..inner {
                        let d = &mut nxt[(o * p + pi) * inner + i];
                        *d = d.max(cur[(o * n + k) * inner + i]);
                    }
                }
            }
        }
        shape[a] = p;
        cur = nxt;
    }
    cur
}

#[derive(Clone, Debug)]
struct Job {
    kind: Kind,
    regular: bool,
    lin: bool,
    hard: Vec<Hard>,
    dims: Vec<usize>,
    lv: Level,
    free: Option<Vec<usize>>,
    salt: usize,
    tabs: Vec<Tab>,
}

fn job<T: Elt>(rep: &Rep, j: &Job) {
    let nd = j.dims.len();
    let mut p = Problem::<T> { kind: j.kind, regular: j.regular, lin: j.lin, dims: j.dims.clone(), starts: vec![], steps: vec![], grids: vec![], vals: vec![] };
    for a in 0..nd {
        let (s, h, g) = axis_of::<T>(j.hard[a], j.dims[a], a);
        if g.windows(2).any(|w| !(w[1] > w[0])) {
            return; // not representable in this type
        }
        p.starts.push(s);
        p.steps.push(h);
        p.grids.push(g);
    }
    let pos: Vec<Vec<T>> = (0..nd)
        .map(|a| {
            let v = match (&j.free, j.dims[a] > 300) {
                (Some(f), _) if !f.contains(&a) => positions(&p.grids[a], Level::Core),
                (_, true) => thin(&p.grids[a]),
                _ => positions(&p.grids[a], j.lv),
            };
            match &j.free {
                Some(f) if !f.contains(&a) => vec![v[(a * 3 + j.salt) % v.len()]],
                _ => v,
            }
        })
        .collect();
    let mut axes: Vec<Vec<refm::AxisW>> = vec![];
    let mut foot: Vec<Vec<(usize, usize)>> = vec![];
    for a in 0..nd {
        let nodes = ref_nodes(&p, a);
        let n = nodes.len();
        axes.push(pos[a].iter().map(|x| refm::axis_weights(j.kind, j.lin, &nodes, x.dd(), T::EPS, false)).collect());
        foot.push(
            pos[a]
                .iter()
                .zip(&axes[a])
                .map(|(x, w)| {
                    // either cell when the point is within rounding of a node
                    let big = x.f().abs().max(nodes[0].hi.abs()).max(nodes[n - 1].hi.abs());
                    let near = (0..n).any(|i| (x.dd() - nodes[i]).hi.abs() <= 8.0 * T::EPS * big);
                    let (s, e) = (w.start, w.start + w.w.len());
                    if near { (s.saturating_sub(1), (e + 1).min(n)) } else { (s, e) }
                })
                .collect(),
        );
    }
    let cols = product_obs(&pos);
    let tot = cols[0].len();
    let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
    let ents = if nd <= 2 && j.dims.iter().all(|&n| n < 50) { entries(j.kind, nd) } else if nd <= 5 { few(j.kind, nd) } else { impls(j.kind, nd) };
    for &t in &j.tabs {
        p.vals = table(t, &j.dims);
        let hs: String = j.hard.iter().map(|h| format!("{h:?}").chars().filter(|c| c.is_uppercase()).collect::<String>() + &format!("{}", *h as u8)).collect();
        let k = key(&p, &format!("{hs}/{t:?}/{:?}/{:?}/{}", j.lv, j.free, j.salt).replace(' ', ""));
        rep.case(&k, || {
            let vd: Vec<DD> = p.vals.iter().map(|v| v.dd()).collect();
            let va: Vec<f64> = vd.iter().map(|v| v.hi.abs()).collect();
            let r = refm::product(&j.dims, &vd, &axes);
            let loc = local_max(&j.dims, &va, &foot);
            let glob = va.iter().cloned().fold(0.0, f64::max);
            rep.states_keyed(hash_str(&k), tot);
            rep.sample(|| format!("{k}: {tot} points, e.g. {:?} on {:?}", cols.iter().map(|c| c[tot / 2]).collect::<Vec<_>>(), p.grids.iter().map(|g| g[..g.len().min(5)].to_vec()).collect::<Vec<_>>()));
            for (ei, &e) in ents.iter().enumerate() {
                let mut out = vec![T::nan(); tot];
                if let Err(m) = eval(&p, e, &os, &mut out) {
                    rep.violation(&k, format!("{e:?}: unexpected error {m}"));
                    return;
                }
                if ei == 0 {
                    rep.outcomes_bulk(out.iter().take(256).map(|o| o.bits()));
                }
                for i in 0..tot {
                    if r.amb[i] {
                        continue;
                    }
                    let want = DD { hi: r.val[i], lo: r.lo[i] };
                    let bad = |m: String| {
                        let pt: Vec<T> = cols.iter().map(|c| c[i]).collect();
                        rep.violation(&k, format!("{e:?} at {pt:?}: got {:?}, exact {:?}{m}; starts {:?} steps {:?} grids {:?}", out[i], want.hi, p.starts, p.steps, p.grids.iter().map(|g| &g[..g.len().min(12)]).collect::<Vec<_>>()));
                    };
                    if j.kind == Kind::Nearest {
                        if !(out[i].dd() == want) {
                            bad(String::new());
                            return;
                        }
                        continue;
                    }
                    let tol = T::EPS * r.tol[i] * (loc[i] / glob) + 1e-300;
                    let d = (out[i].dd() - want).hi.abs();
                    if !(d <= tol) {
                        bad(format!(", difference {d:e} above {tol:e}"));
                        return;
                    }
                    rep.ratio_fast(d / tol, &k);
                }
                rep.trace(tot);
            }
        });
    }
}
/// Positions on a long axis: dense at both ends and in the middle, every 97th node in between.
fn thin<T: Elt>(g: &[T]) -> Vec<T> {
    let n = g.len();
    let mut v = vec![g[0] - (g[1] - g[0]) * T::of(2.3), g[n - 1] + (g[n - 1] - g[n - 2]) * T::of(1.7)];
    for i in 0..n - 1 {
        if i < 12 || i + 12 > n || (i > n / 2 && i < n / 2 + 6) || i % 97 == 0 {
            let h = g[i + 1] - g[i];
            v.extend([g[i], g[i].next_up_(), g[i] + h * T::of(1.0 / 3.0), g[i] + h * T::of(0.71), g[i + 1].next_down_()]);
        }
    }
    v
}

/// The 1-D module on the same axes.
fn one<T: Elt>(rep: &Rep, regular: bool, h: Hard, n: usize) {
    let (s, st, g) = axis_of::<T>(h, n, 0);
    if g.windows(2).any(|w| !(w[1] > w[0])) {
        return;
    }
    let k = format!("one_dim/{}/{}/{h:?}/{n}", if regular { "regular" } else { "rectilinear" }, T::NAME);
    rep.case(&k, || {
        let nodes: Vec<DD> = if regular { (0..n).map(|i| s.dd() + st.dd() * DD::from_f64(i as f64)).collect() } else { g.iter().map(|x| x.dd()).collect() };
        let xs = if n > 300 { thin(&g) } else { positions(&g, Level::Full) };
        for t in [Tab::Dense, Tab::Lifted] {
            let vals = table::<T>(t, &[n]);
            let vd: Vec<DD> = vals.iter().map(|v| v.dd()).collect();
            let my = vd.iter().map(|v| v.hi.abs()).fold(0.0, f64::max);
            let gr = if regular { G1::Reg(s, st) } else { G1::Rect(&g) };
            for rule in Rule::ALL {
                for how in [How::Batch, How::One] {
                    let mut out = vec![T::nan(); xs.len()];
                    if let Err(e) = eval1(&gr, &vals, rule, how, &xs, &mut out) {
                        rep.violation(&k, format!("{rule:?}: {e}"));
                        return;
                    }
                    for (x, o) in xs.iter().zip(&out) {
                        let (v, err, amb) = ref1(rule, &nodes, &vd, my, x.dd(), T::EPS, !regular, false);
                        if amb {
                            continue;
                        }
                        let d = (o.dd() - v).hi.abs();
                        if !(d <= T::EPS * err) {
                            rep.violation(&k, format!("{rule:?} {how:?} at {x:?}: got {o:?}, exact {:?}, difference {d:e} above {:e}", v.hi, T::EPS * err));
                            return;
                        }
                        if err > 0.0 {
                            rep.ratio_fast(d / (T::EPS * err), &k);
                        }
                    }
                    rep.trace(xs.len());
                }
            }
        }
        rep.states_keyed(hash_str(&k), xs.len() * 2);
    });
}

fn main() {
    let rep = Rep::new("C24");
    let th = rep.thorough;
    let mut v: Vec<Job> = vec![];
    for (kind, regular, lin) in methods() {
        let m = kind.min_n();
        let hs: &[Hard] = if regular { &REG } else { &RECT };
        let b = |hard: Vec<Hard>, dims: Vec<usize>, lv: Level| Job { kind, regular, lin, hard, dims, lv, free: None, salt: 0, tabs: TABS.to_vec() };
        for &h in hs {
            for n in (m..=m + if th { 9 } else { 5 }).chain([16, 33, 150]) {
                if n > 12 && matches!(h, Offset | OffsetNeg | Ratio | RatioB) || n < 150 {
                    v.push(b(vec![h], vec![n], Level::Full));
                }
            }
            for n in [1001, 4097, 10_007] {
                v.push(b(vec![h], vec![n], Level::Mid));
            }
        }
        for &h in hs {
            for &g in hs {
                for d in [vec![m, m], vec![m + 1, m], vec![m, m + 2], vec![m + 3, m + 1]] {
                    if !th && d[0] == m + 3 && h != g {
                        continue;
                    }
                    v.push(b(vec![h, g], d, if th { Level::Full } else { Level::Mid }));
                }
            }
            let g = hs[(h as usize + 2) % hs.len()];
            v.push(b(vec![h, g], vec![500, m], Level::Mid));
            v.push(b(vec![g, h], vec![m + 1, 500], Level::Core));
        }
        for nd in 3..=kind.max_dims() {
            for (q, &h) in hs.iter().enumerate() {
                for same in [true, false] {
                    let hard: Vec<Hard> = (0..nd).map(|a| if same { h } else { hs[(q + a) % hs.len()] }).collect();
                    let dims: Vec<usize> = (0..nd).map(|a| m + ((a + q) % nd == 0 && !(kind == Kind::Cubic && nd > 6)) as usize).collect();
                    let heavy = kind == Kind::Cubic && nd >= 5;
                    if (kind == Kind::Cubic && nd >= 7 && !same) && !th {
                        continue;
                    }
                    let mut j = b(hard, dims, Level::Core);
                    if nd >= 4 {
                        j.tabs = if th { TABS.to_vec() } else { vec![TABS[q % 4], TABS[(q + 1) % 4]] };
                    }
                    if nd == 3 && (kind != Kind::Cubic || th) {
                        j.lv = Level::Mid;
                    }
                    if nd <= 4 && !heavy {
                        v.push(j);
                        continue;
                    }
                    if heavy && !th {
                        j.tabs.truncate(1);
                        j.lv = Level::Sides;
                    }
                    for a in 0..nd {
                        for c in a + 1..nd {
                            if heavy && !th && nd >= 6 && (a + c + q) % 4 != 0 {
                                continue;
                            }
                            let mut j = j.clone();
                            j.free = Some(vec![a, c]);
                            j.salt = a + 2 * c + q;
                            v.push(j);
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|j| std::cmp::Reverse(j.dims.len()));
    rep.par(&v, |j| {
        job::<f64>(&rep, j);
        job::<f32>(&rep, j);
        let nd = j.dims.len();
        if th || nd <= 2 || (nd <= 4 && j.kind != Kind::Cubic) || (nd == 3 && j.tabs.len() == 4) {
            job::<DD>(&rep, j);
        }
    });
    let mut o = vec![];
    for regular in [true, false] {
        for &h in if regular { &REG[..] } else { &RECT[..] } {
            for n in (2..=9).chain([33, 1001, 10_007]) {
                o.push((regular, h, n));
            }
        }
    }
    rep.par(&o, |&(r, h, n)| {
        one::<f64>(&rep, r, h, n);
        one::<f32>(&rep, r, h, n);
        one::<DD>(&rep, r, h, n);
    });
    rep.finish()
}
