//! C06: every node of every grid is reproduced, in C order.
use vh::conf::{key, reference};
use vh::gen_::*;
use vh::iface::*;
use vh::num::Elt;
use vh::report::{Rep, hash_str};
use vh::shapes::*;

#[derive(Clone)]
struct T1 {
    kind: Kind,
    regular: bool,
    lin: bool,
    sp: Vec<Spacing>,
    dims: Vec<usize>,
    /// index list per axis (all nodes unless restricted)
    idx: Vec<Vec<usize>>,
    all: bool,
    rev: bool,
}

fn run<T: Elt>(rep: &Rep, t: &T1) {
    let nd = t.dims.len();
    let mut p = problem::<T>(t.kind, t.regular, t.lin, &t.sp, &t.dims, 3);
    // distinct values everywhere (exact in f32 up to 2^24 entries), scrambled in sign and order of size
    let n = p.vals.len();
    for (i, v) in p.vals.iter_mut().enumerate() {
        let k = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 44; // 20 bits
        *v = T::of((k as f64) / 1048576.0 * if i % 2 == 0 { 1.0 } else { -1.0 } + 0.125);
    }
    let sel: String = t.idx.iter().zip(&t.dims).map(|(i, d)| if i.len() == *d { 'a' } else { char::from_digit(i.len() as u32 % 36, 36).unwrap() }).collect();
    let k = key(&p, &format!("{}/{}/i{:?}", sp_tag(&t.sp), sel, t.idx.iter().map(|v| v[0]).collect::<Vec<_>>()).replace(' ', ""));
    rep.case(&k, || {
        let pos: Vec<Vec<T>> = (0..nd).map(|a| t.idx[a].iter().map(|&i| p.grids[a][i]).collect()).collect();
        let mut cols = product_obs(&pos);
        let tot = cols[0].len();
        let mut stride = vec![1usize; nd];
        for a in (0..nd - 1).rev() {
            stride[a] = stride[a + 1] * t.dims[a + 1];
        }
        let ix: Vec<Vec<usize>> = product_obs(&t.idx);
        let mut want: Vec<usize> = (0..tot).map(|j| (0..nd).map(|a| ix[a][j] * stride[a]).sum()).collect();
        let r = reference(&p, &pos, false);
        let mut tol: Vec<f64> = r.tol.iter().map(|t| t * T::EPS + 1e-300).collect();
        if t.rev {
            cols.iter_mut().for_each(|c| c.reverse());
            want.reverse();
            tol.reverse();
        }
        let kh = hash_str(&k);
        rep.states_keyed(kh, tot);
        rep.sample(|| format!("{k}: all {tot} of {n} nodes"));
        let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
        let ents = if t.all { entries(t.kind, nd) } else { few(t.kind, nd) };
        for (ei, e) in ents.into_iter().enumerate() {
            let mut out = vec![T::nan(); tot];
            if let Err(m) = eval(&p, e, &os, &mut out) {
                rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                continue;
            }
            let mut worst: f64 = 0.0;
            let mut bad = None;
            for j in 0..tot {
                let w = p.vals[want[j]];
                let ok = if t.kind == Kind::Nearest {
                    out[j].same(w)
                } else {
                    let d = (out[j] - w).dd().hi.abs();
                    worst = worst.max(d / tol[j]);
                    d <= tol[j]
                };
                if !ok {
                    bad = Some(j);
                    break;
                }
            }
            match bad {
                None => rep.trace(tot),
                Some(j) => {
                    let node: Vec<usize> = (0..nd).map(|a| want[j] / stride[a] % t.dims[a]).collect();
                    rep.violation(&k, format!("{e:?}: node {node:?} of {:?}: got {:?}, stored {:?}", t.dims, out[j], p.vals[want[j]]))
                }
            }
            if worst > rep.maxratio() && bad.is_none() {
                rep.ratio(worst, || k.clone());
            }
            if ei == 0 {
                rep.outcomes_bulk(out.iter().map(|o| o.bits()));
            }
        }
    });
}

/// A table of `n` zeros whose pages are not backed by memory until written.
fn lazy_zeros<T: Elt>(n: usize) -> Option<Vec<T>> {
    unsafe extern "C" {
        fn madvise(p: *mut u8, len: usize, advice: i32) -> i32;
    }
    let l = std::alloc::Layout::array::<T>(n).ok()?;
    unsafe {
        let p = std::alloc::alloc_zeroed(l);
        if p.is_null() {
            return None;
        }
        let page = (p as usize + 4095) & !4095;
        madvise(page as *mut u8, (l.size() - 8192) & !4095, 15); // no huge pages
        Some(Vec::from_raw_parts(p as *mut T, n, n))
    }
}

/// Tables of more than 2^31 and 2^32 entries: selected nodes, everything else zero.
fn vast<T: Elt>(rep: &Rep, dims: &[usize], rect: bool) {
    let nd = dims.len();
    let n: usize = dims.iter().product();
    let k0 = format!("vast/{}/{dims:?}", T::NAME).replace(' ', "");
    rep.case(&k0, || {
        let Some(vals) = lazy_zeros::<T>(n) else {
            rep.note("tables too large for this machine", 1);
            return;
        };
        let mut p = Problem { kind: Kind::Linear, regular: true, lin: true, dims: dims.to_vec(), starts: vec![T::zero(); nd], steps: vec![T::one(); nd], grids: vec![], vals };
        if rect {
            p.grids = dims.iter().map(|&n| (0..n).map(|i| T::of(i as f64)).collect()).collect();
        }
        let per = |d: usize| if nd <= 3 { vec![0, 1, d / 2, d - 2, d - 1] } else { vec![0, d - 1] };
        let nodes: Vec<Vec<usize>> = cart(&dims.iter().map(|&d| per(d)).collect::<Vec<_>>());
        let flat = |v: &[usize]| v.iter().zip(dims).fold(0, |f, (i, d)| f * d + i);
        for (q, v) in nodes.iter().enumerate() {
            p.vals[flat(v)] = T::of(0.25 + q as f64 / 512.0);
        }
        rep.states_keyed(hash_str(&k0), nodes.len());
        rep.sample(|| format!("{k0}: {} nodes of {n}", nodes.len()));
        for (kind, regular, lin) in methods() {
            if nd > kind.max_dims() || dims[0] < kind.min_n() || (!rect && !regular) {
                continue;
            }
            (p.kind, p.regular, p.lin) = (kind, regular, lin);
            let k = format!("{k0}/{kind:?}/{}/lin={lin}", if regular { "regular" } else { "rectilinear" });
            let cols: Vec<Vec<T>> = (0..nd).map(|a| nodes.iter().map(|v| T::of(v[a] as f64)).collect()).collect();
            let os: Vec<&[T]> = cols.iter().map(|c| &c[..]).collect();
            for e in impls(kind, nd) {
                let mut out = vec![T::nan(); nodes.len()];
                if let Err(m) = eval(&p, e, &os, &mut out) {
                    rep.violation(&k, format!("{e:?}: unexpected error {m:?}"));
                    return;
                }
                for (q, v) in nodes.iter().enumerate() {
                    let want = p.vals[flat(v)];
                    let d = (out[q] - want).dd().hi.abs();
                    if !(d <= if kind == Kind::Nearest { 0.0 } else { 256.0 * T::EPS * nd as f64 }) {
                        rep.violation(&k, format!("{e:?}: node {v:?} (entry {}) of {dims:?}: got {:?}, stored {want:?}", flat(v), out[q]));
                        return;
                    }
                }
                rep.trace(nodes.len());
            }
        }
    });
}

fn main() {
    let rep = Rep::new("C06");
    vast::<f64>(&rep, &[(1 << 31) + 9], false);
    vast::<f64>(&rep, &[(1 << 24) + 9], true);
    vast::<f32>(&rep, &[46342, 46343], true);
    vast::<f32>(&rep, &[65537, 65539], true);
    vast::<f32>(&rep, &[2049, 1025, 2051], true);
    vast::<f32>(&rep, &[4, 1 << 22, 260], true);
    vast::<f32>(&rep, &[16; 8], true);
    let th = rep.thorough;
    let mut v: Vec<T1> = vec![];
    for (kind, regular, lin) in methods() {
        let m = kind.min_n();
        let full = |dims: &[usize]| -> Vec<Vec<usize>> { dims.iter().map(|&n| (0..n).collect()).collect() };
        // 1-D: every length to 70, then long ones
        for s in allowed(regular) {
            let longs = [97, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 8193, 10007, 32769, 65535, 65536, 65537, 65541];
            for n in (m..=if th { 300 } else { 70 }).chain(longs) {
                if n > 4097 && s.even() != (n % 2 == 0) && !th {
                    continue;
                }
                for rev in [false, true] {
                    v.push(T1 { kind, regular, lin, sp: vec![s], dims: vec![n], idx: full(&[n]), all: n < 5000, rev });
                }
            }
            if th {
                let n = 1_000_003;
                v.push(T1 { kind, regular, lin, sp: vec![s], dims: vec![n], idx: full(&[n]), all: false, rev: false });
            }
        }
        let mut push = |dims: Vec<usize>, all: bool| {
            for (q, sp) in mixes(regular, dims.len()).into_iter().enumerate() {
                let work = dims.iter().product::<usize>() * if kind == Kind::Cubic { 1 << (2 * dims.len()) } else { 1 << dims.len() };
                if !th && ((dims.len() >= 5 && q > 0 && kind == Kind::Cubic) || (work > 1_500_000 && q != (dims[0] + lin as usize) % 2) || (work > 150_000 && q > 1)) {
                    continue;
                }
                v.push(T1 { kind, regular, lin, sp, dims: dims.clone(), idx: full(&dims), all, rev: q % 2 == 1 });
            }
        };
        // every shape
        let span = |k: usize| -> Vec<usize> { (m..m + k).collect() };
        for d in power(&span(if th { 18 } else { 11 }), 2) {
            push(d, true);
        }
        for d in power(&span(if th { 7 } else { 5 }), 3) {
            push(d, true);
        }
        for d in power(&span(if th { 4 } else { 3 }), 4) {
            if kind == Kind::Cubic && !th && d.iter().filter(|&&x| x == m + 2).count() > 1 {
                continue;
            }
            push(d, false);
        }
        for nd in 5..=kind.max_dims() {
            for (pi, d) in power(&span(2), nd).into_iter().enumerate() {
                let big = d.iter().filter(|&&x| x > m).count();
                if kind == Kind::Cubic && (nd > 6 || (nd == 6 && !(th && big <= 1)) || (big > if th { 3 } else { 1 })) {
                    continue;
                }
                if nd >= 7 && !th && big > 2 && pi % 7 != 0 {
                    continue;
                }
                push(d, false);
            }
        }
        // one long axis in each position, short ones elsewhere
        for nd in 2..=4 {
            for a in 0..nd {
                for n in [70, 129, 257, 300, 1025, 5003] {
                    if kind == Kind::Cubic && nd == 4 && n > 300 && !th {
                        continue;
                    }
                    let mut d = vec![m; nd];
                    d[a] = n;
                    if nd > 2 {
                        d[(a + 1) % nd] = m + 1;
                    }
                    push(d, false);
                }
            }
        }
        push(vec![257, 260], false);
        push(vec![260, 257], false);
        push(vec![300, 301], false);
        push(vec![70, 41, 36], false);
        push(vec![34, 36, 70], false);
        if kind != Kind::Cubic || th {
            push(vec![17, 19, 16, 18], false);
        }
        // cubic in 6-8 dimensions: full lines and planes of nodes through several places
        if kind == Kind::Cubic {
            for nd in 6..=8 {
                let mut dims = vec![4; nd];
                dims[nd / 2] = 5;
                for a in 0..nd {
                    for b in a + 1..nd {
                        for q in 0..if th { 4 } else { 2 } {
                            let idx: Vec<Vec<usize>> = (0..nd).map(|x| if x == a || x == b { (0..dims[x]).collect() } else { vec![(x * 3 + q * 5 + a + b) % dims[x]] }).collect();
                            let sp = mixes(regular, nd)[(a + b + q) % if regular { 2 } else { 4 }].clone();
                            v.push(T1 { kind, regular, lin, sp, dims: dims.clone(), idx, all: false, rev: false });
                        }
                    }
                }
                // all corners
                if nd == 6 || th {
                    let idx: Vec<Vec<usize>> = dims.iter().map(|&n| vec![0, n - 1]).collect();
                    v.push(T1 { kind, regular, lin, sp: mixes(regular, nd)[0].clone(), dims: dims.clone(), idx, all: false, rev: false });
                }
            }
        }
    }
    v.sort_by_key(|t| std::cmp::Reverse(t.idx.iter().map(|i| i.len()).product::<usize>() * if t.kind == Kind::Cubic { 1 << (2 * t.dims.len()) } else { 1 << t.dims.len() }));
    rep.note("grids", 2 * v.len() as u64);
    rep.par(&v, |t| {
        run::<f64>(&rep, t);
        run::<f32>(&rep, t);
    });
    rep.finish()
}
