//! C26: linspace and meshgrid over every length, many end points, every axis count and length pattern.
use interpn::utils::{linspace, meshgrid};
use vh::gen_::power;
use vh::num::{DD, Elt};
use vh::report::{Rep, hash_str};

fn lin<T: Elt>(rep: &Rep, s: f64, e: f64, ns: &[usize]) {
    let (a, b) = (T::of(s), T::of(e));
    let (s, e) = (a.dd(), b.dd());
    let k = format!("linspace/{}/{:?}/{:?}", T::NAME, a, b);
    rep.case(&k, || {
        for &n in ns {
            let v = linspace(a, b, n);
            let bad = |m: String| rep.violation(&k, format!("linspace({a:?}, {b:?}, {n}): {m}"));
            if v.len() != n {
                bad(format!("{} points", v.len()));
                return;
            }
            if !v[0].same(a) && !(v[0] == a) {
                bad(format!("first point {:?}", v[0]));
                return;
            }
            let big = s.hi.abs().max(e.hi.abs());
            let dx = (e - s) / DD::from_f64((n - 1) as f64);
            // representable margin: the spacing is several units in the last place of the largest node
            let strict = dx.hi > 8.0 * T::EPS * big && dx.hi > 1e-30;
            let tol = T::EPS * (4.0 * (e - s).hi.abs() + big) + 1e-300;
            for i in 0..n {
                let x = s + dx * DD::from_f64(i as f64);
                let d = (v[i].dd() - x).hi.abs();
                if !(d <= tol) {
                    bad(format!("point {i} is {:?}, not {:?}", v[i], x.hi));
                    return;
                }
                rep.ratio_fast(d / tol, &k);
                if strict && i > 0 && !(v[i] > v[i - 1]) {
                    bad(format!("point {i} ({:?}) does not exceed the one before it ({:?})", v[i], v[i - 1]));
                    return;
                }
            }
            rep.trace(n);
            rep.states_keyed(hash_str(&k) ^ n as u64, n);
            rep.outcomes_bulk(v.iter().take(64).map(|x| x.bits()));
        }
        rep.sample(|| format!("{k}: {} lengths up to {}", ns.len(), ns.iter().max().unwrap()));
    });
}

fn mesh<T: Elt>(rep: &Rep, dims: &[usize]) {
    let k = format!("meshgrid/{}/{dims:?}", T::NAME);
    rep.case(&k, || {
        // every entry of every axis distinct; not sorted, not numbers an index could be mistaken for
        let axes: Vec<Vec<T>> = dims.iter().enumerate().map(|(a, &n)| (0..n).map(|i| T::of(((i * 7 + 3) % 1021) as f64 * 0.5 - 40.0 + 1000.0 * a as f64)).collect()).collect();
        let got = meshgrid(axes.iter().collect());
        let tot: usize = dims.iter().product();
        if got.len() != tot {
            rep.violation(&k, format!("{} combinations, not {tot}", got.len()));
            return;
        }
        for (j, g) in got.iter().enumerate() {
            let mut r = j;
            let mut want = vec![T::zero(); dims.len()];
            for a in (0..dims.len()).rev() {
                want[a] = axes[a][r % dims[a]];
                r /= dims[a];
            }
            if g.len() != want.len() || !g.iter().zip(&want).all(|(x, y)| x.same(*y)) {
                rep.violation(&k, format!("combination {j} is {g:?}, not {want:?}"));
                return;
            }
        }
        rep.trace(tot.max(1));
        rep.states_keyed(hash_str(&k), tot.max(1));
        rep.sample(|| format!("{k}: {tot} combinations"));
    });
}

fn main() {
    let rep = Rep::new("C26");
    let th = rep.thorough;
    let ends = [0.0, -0.0, 1.0, -1.0, 0.1, -0.3, 1.0 / 3.0, 2.5, 7.0, -7.25, 100.0, 1e-3, -1e-3, 1e5, -12345.678, 1e-20, -1e-20, 1e20, -3e20, 1e30, 16777216.0, 16777217.0, 1.0000001, 0.99999994];
    let mut ns: Vec<usize> = (2..=if th { 1500 } else { 260 }).collect();
    ns.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_001, 65_535, 65_536, 65_537]);
    if th {
        ns.extend([100_003, 1_000_001, 4_000_000]);
    }
    let mut ps: Vec<(f64, f64)> = vec![];
    for s in ends {
        for e in ends {
            ps.push((s, e));
        }
    }
    rep.par(&ps, |&(s, e)| {
        lin::<f64>(&rep, s, e, &ns);
        lin::<f32>(&rep, s, e, &ns);
    });
    let mut sh: Vec<Vec<usize>> = vec![];
    for nd in 1..=(if th { 9 } else { 8 }) {
        let alph: &[usize] = match nd {
            1 => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 255, 256, 257, 70_001],
            2 => &[0, 1, 2, 3, 4, 5, 6, 17, 257],
            3 => &[0, 1, 2, 3, 4, 5, 9],
            4 => &[0, 1, 2, 3, 4, 6],
            5 => &[0, 1, 2, 3, 4],
            6 => &[1, 2, 3],
            _ => &[1, 2],
        };
        sh.extend(power(alph, nd));
    }
    rep.par(&sh, |d| {
        mesh::<f64>(&rep, d);
        mesh::<f32>(&rep, d);
    });
    rep.finish()
}
