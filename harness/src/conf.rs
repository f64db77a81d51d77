//! Conformance of one problem with the reference over a product of positions.
use crate::gen_::*;
use crate::iface::*;
use crate::num::Elt;
use crate::refm;
use crate::report::{Rep, hash_str};

/// Constant in front of eps * (error bound): the worst ratio seen on the unchanged tree is reported
/// in the evidence as max_error_over_tolerance and stays well below 1.
pub const C: f64 = 1.0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    C,
    Rev,
    /// every ordered pair of points consecutively
    Tour,
    /// every ordered triple consecutively
    Tour3,
}

pub fn key<T: Elt>(p: &Problem<T>, tag: &str) -> String {
    format!(
        "{:?}/{}/{}/lin={}/{:?}/{}",
        p.kind,
        if p.regular { "regular" } else { "rectilinear" },
        T::NAME,
        p.lin,
        p.dims,
        tag
    )
}

pub fn reference<T: Elt>(p: &Problem<T>, pos: &[Vec<T>], exact: bool) -> refm::Ref {
    let nd = p.dims.len();
    let axes: Vec<Vec<refm::AxisW>> = (0..nd)
        .map(|a| {
            let nodes = ref_nodes(p, a);
            pos[a].iter().map(|x| refm::axis_weights(p.kind, p.lin, &nodes, x.dd(), T::EPS, exact)).collect()
        })
        .collect();
    let vals: Vec<_> = p.vals.iter().map(|v| v.dd()).collect();
    refm::product(&p.dims, &vals, &axes)
}

/// Compare one output vector with the reference (in the given order of points). Returns the first mismatch.
pub fn compare<T: Elt>(rep: &Rep, kind: Kind, r: &refm::Ref, order: Option<&[usize]>, out: &[T], k: &str) -> Option<(usize, String)> {
    let mut worst = 0.0f64;
    let mut bad = None;
    for (j, o) in out.iter().enumerate() {
        let i = order.map(|v| v[j]).unwrap_or(j);
        if r.amb[i] {
            continue;
        }
        if kind == Kind::Nearest {
            if o.f() != r.val[i] || o.is_nan() {
                bad = Some((j, format!("got {:?}, expected {:?}", o, r.val[i])));
                break;
            }
            continue;
        }
        let od = o.dd();
        let diff = ((od.hi - r.val[i]) + (od.lo - r.lo[i])).abs();
        let tol = C * T::EPS * r.tol[i] + 1e-300;
        let ratio = diff / tol;
        if !(ratio <= 1.0) {
            bad = Some((j, format!("got {:?}, expected {:?}, difference {:e} above tolerance {:e}", o, r.val[i], diff, tol)));
            break;
        }
        worst = worst.max(ratio);
    }
    if worst > rep.maxratio() && bad.is_none() {
        rep.ratio(worst, || k.to_string());
    }
    bad
}

pub fn describe<T: Elt>(p: &Problem<T>, obs: &[Vec<T>], j: usize) -> String {
    let pt: Vec<T> = obs.iter().map(|c| c[j]).collect();
    let mut s = format!("point {:?} (index {} of {})", pt, j, obs[0].len());
    if p.regular {
        s += &format!(" starts {:?} steps {:?}", p.starts, p.steps);
    } else {
        let g: Vec<&[T]> = p.grids.iter().map(|g| &g[..g.len().min(12)]).collect();
        s += &format!(" grids {:?}", g);
    }
    if p.vals.len() <= 64 {
        s += &format!(" vals {:?}", p.vals);
    }
    s
}

/// The central step: run `ents` on the product of positions and compare with the reference.
pub fn check_product<T: Elt>(rep: &Rep, p: &Problem<T>, pos: &[Vec<T>], ents: &[Entry], orders: &[Order], exact: bool, tag: &str) {
    let k = key(p, tag);
    rep.case(&k, || {
        let cols = product_obs(pos);
        let tot = cols[0].len();
        let r = reference(p, pos, exact);
        let kh = hash_str(&k);
        rep.states_keyed(kh, tot);
        rep.skipped.fetch_add(r.amb.iter().filter(|a| **a).count() as u64, std::sync::atomic::Ordering::Relaxed);
        rep.sample(|| format!("{k}: {} points, e.g. {}", tot, describe(p, &cols, tot / 2)));
        let mut first = true;
        for &ord in orders {
            let idx: Option<Vec<usize>> = match ord {
                Order::C => None,
                Order::Rev => Some((0..tot).rev().collect()),
                Order::Tour => Some(de_bruijn(tot, 2)),
                Order::Tour3 => Some(de_bruijn(tot, 3)),
            };
            let oc: Vec<Vec<T>> = match &idx {
                None => cols.clone(),
                Some(ix) => cols.iter().map(|c| ix.iter().map(|&i| c[i]).collect()).collect(),
            };
            let os: Vec<&[T]> = oc.iter().map(|c| &c[..]).collect();
            for &e in ents {
                let mut out = vec![T::nan(); oc[0].len()];
                match eval(p, e, &os, &mut out) {
                    Ok(()) => {}
                    Err(m) => {
                        rep.violation(&k, format!("{e:?} {ord:?}: unexpected error {m:?}"));
                        continue;
                    }
                }
                if first {
                    rep.outcomes_bulk(out.iter().map(|o| o.bits()));
                    first = false;
                }
                match compare(rep, p.kind, &r, idx.as_deref(), &out, &k) {
                    None => rep.trace(out.len()),
                    Some((j, m)) => rep.violation(&k, format!("{e:?} {ord:?}: {m}; {}", describe(p, &oc, j))),
                }
            }
        }
    });
}
