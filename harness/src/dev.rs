//! Malformed arguments: deviations from well-formed ones, and what the documentation says about them.
use crate::gen_::*;
use crate::iface::*;
use crate::num::Elt;

/// Raw arguments of one call.
#[derive(Clone)]
pub struct Raw<T> {
    pub p: Problem<T>,
    pub obs: Vec<Vec<T>>,
    pub out: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fit {
    No,
    /// the value table is resized to match the (changed) grid
    Vals,
    /// everything else is made consistent with the changed grid description
    All,
}

#[derive(Clone, Copy, Debug)]
pub enum Dev {
    None,
    Nd(i32),
    Dim(usize, i64),
    DimZero(usize),
    StartsLen(i32),
    StepsLen(i32),
    StepVal(usize, usize),
    GridFirst(usize, usize),
    ValsLen(i32),
    ValsEmpty,
    ValsDouble,
    ObsCount(i32),
    NoObs,
    ObsLen(usize, i32),
    ObsEmpty(usize),
    OutLen(i32),
    OutEmpty,
    BothEmpty,
}

pub fn resize<T: Clone>(v: &mut Vec<T>, d: i32, fill: T) {
    let n = (v.len() as i64 + d as i64).max(0) as usize;
    v.resize(n, fill);
}

pub fn grid<T: Elt>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::of(i as f64 * 0.5 - 1.0)).collect()
}

pub fn apply<T: Elt>(r: &mut Raw<T>, d: Dev, min: usize) {
    let bad_steps = [T::zero(), -T::zero(), -T::one(), T::nan(), T::neg_infinity()];
    let p = &mut r.p;
    match d {
        Dev::None => {}
        Dev::Nd(k) => {
            if p.regular {
                resize(&mut p.dims, k, min)
            } else {
                resize(&mut p.grids, k, grid(min));
            }
        }
        Dev::Dim(a, k) => {
            if p.regular {
                if let Some(x) = p.dims.get_mut(a) {
                    *x = (*x as i64 + k).max(0) as usize
                }
            } else if let Some(g) = p.grids.get_mut(a) {
                *g = grid((g.len() as i64 + k).max(0) as usize)
            }
        }
        Dev::DimZero(a) => {
            if p.regular {
                if let Some(x) = p.dims.get_mut(a) {
                    *x = 0
                }
            } else if let Some(g) = p.grids.get_mut(a) {
                g.clear()
            }
        }
        Dev::StartsLen(k) => resize(&mut p.starts, k, T::zero()),
        Dev::StepsLen(k) => resize(&mut p.steps, k, T::one()),
        Dev::StepVal(a, i) => {
            if let Some(x) = p.steps.get_mut(a) {
                *x = bad_steps[i]
            }
        }
        Dev::GridFirst(a, i) => {
            if let Some(g) = p.grids.get_mut(a)
                && g.len() > 1
            {
                match i {
                    0 => g[1] = g[0],
                    1 => g[1] = g[0] - T::one(),
                    2 => g[1] = T::nan(),
                    3 => g[0] = T::nan(),
                    _ => g.reverse(),
                }
            }
        }
        Dev::ValsLen(k) => resize(&mut p.vals, k, T::one()),
        Dev::ValsEmpty => p.vals.clear(),
        Dev::ValsDouble => {
            let n = p.vals.len();
            p.vals.resize(2 * n, T::one())
        }
        Dev::ObsCount(k) => {
            let c = r.obs.first().cloned().unwrap_or(vec![T::zero(); r.out]);
            resize(&mut r.obs, k, c)
        }
        Dev::NoObs => r.obs.clear(),
        Dev::ObsLen(a, k) => {
            if let Some(o) = r.obs.get_mut(a) {
                resize(o, k, T::zero())
            }
        }
        Dev::ObsEmpty(a) => {
            if let Some(o) = r.obs.get_mut(a) {
                o.clear()
            }
        }
        Dev::OutLen(k) => r.out = (r.out as i64 + k as i64).max(0) as usize,
        Dev::OutEmpty => r.out = 0,
        Dev::BothEmpty => {
            r.obs.iter_mut().for_each(|o| o.clear());
            r.out = 0
        }
    }
}

pub fn fit<T: Elt>(r: &mut Raw<T>, f: Fit) {
    if f == Fit::No {
        return;
    }
    let dims: Vec<usize> = dims_of(r);
    let n: usize = dims.iter().product();
    r.p.vals.resize(n, T::of(0.25));
    if f == Fit::All {
        let nd = dims.len();
        r.p.starts.resize(nd, T::zero());
        r.p.steps.resize(nd, T::one());
        let c = r.obs.first().cloned().unwrap_or(vec![T::zero(); r.out]);
        r.obs.resize(nd, c);
        let l = r.out;
        r.obs.iter_mut().for_each(|o| o.resize(l, T::of(0.1)));
    }
}

pub fn dims_of<T: Elt>(r: &Raw<T>) -> Vec<usize> {
    if r.p.regular { r.p.dims.clone() } else { r.p.grids.iter().map(|g| g.len()).collect() }
}

/// What the documentation promises: is this call well-formed?
pub fn ok_grid<T: Elt>(r: &Raw<T>, max: usize) -> bool {
    let p = &r.p;
    let dims = dims_of(r);
    let nd = dims.len();
    let prod = dims.iter().try_fold(1u128, |a, &n| a.checked_mul(n as u128));
    let incr = if p.regular { p.starts.len() == nd && p.steps.len() == nd && p.steps.iter().all(|s| *s > T::zero()) } else { p.grids.iter().all(|g| g.len() >= 2 && g[1] > g[0]) };
    nd >= 1 && nd <= max && prod == Some(p.vals.len() as u128) && dims.iter().all(|&n| n >= p.kind.min_n()) && incr
}
pub fn ok_call<T: Elt>(r: &Raw<T>, e: Entry) -> bool {
    let max = match e {
        Entry::Rec(m) | Entry::RecOne(m) => m,
        Entry::Flat | Entry::FlatOne => r.p.kind.flat_max(),
        _ => r.p.kind.max_dims(),
    };
    let nd = dims_of(r).len();
    let l = match e {
        Entry::FnAlloc | Entry::RecFnAlloc => r.obs.first().map_or(0, |o| o.len()),
        _ => r.out,
    };
    ok_grid(r, max) && r.obs.len() == nd && r.obs.iter().all(|o| o.len() == l)
}

pub fn devs(nd: usize, regular: bool) -> Vec<Dev> {
    let mut v = vec![Dev::None, Dev::Nd(-1), Dev::Nd(1), Dev::ValsLen(-1), Dev::ValsLen(1), Dev::ValsEmpty, Dev::ValsDouble, Dev::ObsCount(-1), Dev::ObsCount(1), Dev::NoObs, Dev::OutLen(-1), Dev::OutLen(1), Dev::OutEmpty, Dev::BothEmpty];
    if regular {
        v.extend([Dev::StartsLen(-1), Dev::StartsLen(1), Dev::StepsLen(-1), Dev::StepsLen(1), Dev::StartsLen(-20), Dev::StepsLen(-20)]);
    }
    for a in 0..nd {
        for k in [-1, -2, -3, 1] {
            v.push(Dev::Dim(a, k));
        }
        v.push(Dev::DimZero(a));
        if regular {
            for i in 0..5 {
                v.push(Dev::StepVal(a, i));
            }
        } else {
            for i in 0..5 {
                v.push(Dev::GridFirst(a, i));
            }
        }
        v.extend([Dev::ObsLen(a, -1), Dev::ObsLen(a, 1), Dev::ObsEmpty(a)]);
    }
    v
}

/// Well-formed arguments the deviations start from: `l` points, all axes of the minimum length, or
/// one longer (the middle one only in high dimension).
pub fn base<T: Elt>(kind: Kind, regular: bool, lin: bool, nd: usize, l: usize, exact_min: bool) -> Raw<T> {
    let min = kind.min_n();
    let dims: Vec<usize> = (0..nd).map(|a| min + (!exact_min && (nd <= 4 || a == nd / 2)) as usize).collect();
    let mut p = Problem::<T> { kind, regular, lin, starts: vec![T::of(-1.0); nd], steps: vec![T::of(0.5); nd], grids: dims.iter().map(|&n| grid(n)).collect(), vals: dense(dims.iter().product(), 4), dims };
    if regular {
        p.grids.clear()
    } else {
        p.starts.clear();
        p.steps.clear();
    }
    Raw { p, obs: (0..nd).map(|a| (0..l).map(|i| T::of(0.3 * i as f64 - 0.2 + 0.1 * a as f64)).collect()).collect(), out: l }
}
