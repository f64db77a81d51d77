//! Uniform access to every public entry point of interpn.
use crate::num::Elt;
use interpn::{multicubic, multilinear, nearest};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Linear,
    Cubic,
    Nearest,
}
impl Kind {
    pub const ALL: [Kind; 3] = [Kind::Linear, Kind::Cubic, Kind::Nearest];
    pub fn min_n(self) -> usize {
        if self == Kind::Cubic { 4 } else { 2 }
    }
    pub fn max_dims(self) -> usize {
        if self == Kind::Nearest { 6 } else { 8 }
    }
    pub fn flat_max(self) -> usize {
        if self == Kind::Cubic { 4 } else { 6 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Entry {
    /// `<method>::<grid>::interpn`
    Fn,
    /// `<method>::<grid>::interpn_alloc`
    FnAlloc,
    /// `<method>::<grid>_recursive::interpn`
    RecFn,
    RecFnAlloc,
    /// flattened struct, batch
    Flat,
    /// flattened struct, one point at a time
    FlatOne,
    /// recursive struct with the given MAXDIMS, batch
    Rec(usize),
    RecOne(usize),
}

pub fn entries(kind: Kind, nd: usize) -> Vec<Entry> {
    let mut v = vec![];
    if nd <= kind.max_dims() {
        v.push(Entry::Fn);
        v.push(Entry::FnAlloc);
    }
    if nd <= kind.flat_max() {
        v.push(Entry::Flat);
        v.push(Entry::FlatOne);
    }
    if kind != Kind::Nearest {
        if nd <= 8 {
            v.push(Entry::RecFn);
            v.push(Entry::RecFnAlloc);
        }
        let mut ms = vec![nd, nd + 1, 8, 10];
        ms.sort();
        ms.dedup();
        for m in ms {
            if m >= nd && (m <= 8 || m == 10) {
                v.push(Entry::Rec(m));
                v.push(Entry::RecOne(m));
            }
        }
    }
    // the allocating functions do not exist in the no-std build
    v.retain(|e| cfg!(feature = "std") || !matches!(e, Entry::FnAlloc | Entry::RecFnAlloc));
    v
}

/// One interpolation problem. `starts`/`steps` are used when `regular`, `grids` otherwise;
/// generators fill both when both make sense.
#[derive(Clone, Debug)]
pub struct Problem<T> {
    pub kind: Kind,
    pub regular: bool,
    pub lin: bool,
    pub dims: Vec<usize>,
    pub starts: Vec<T>,
    pub steps: Vec<T>,
    pub grids: Vec<Vec<T>>,
    pub vals: Vec<T>,
}

type R = Result<(), &'static str>;
const NA: &str = "harness: entry not applicable";

#[cfg(feature = "std")]
fn put<T: Copy>(r: Result<Vec<T>, &'static str>, out: &mut [T]) -> R {
    let v = r?;
    if v.len() != out.len() {
        return Err("harness: allocated output has wrong length");
    }
    out.copy_from_slice(&v);
    Ok(())
}

fn arr<X: Copy, const N: usize>(s: &[X]) -> Result<[X; N], &'static str> {
    s.try_into().map_err(|_| NA)
}

macro_rules! flat_dispatch {
    ($n:expr, $max:tt, $mac:ident) => {
        flat_dispatch!(@$max $n, $mac)
    };
    (@4 $n:expr, $mac:ident) => { match $n { 1 => $mac!(1), 2 => $mac!(2), 3 => $mac!(3), 4 => $mac!(4), _ => Err(NA) } };
    (@6 $n:expr, $mac:ident) => { match $n { 1 => $mac!(1), 2 => $mac!(2), 3 => $mac!(3), 4 => $mac!(4), 5 => $mac!(5), 6 => $mac!(6), _ => Err(NA) } };
    (@rec $n:expr, $mac:ident) => { match $n { 1 => $mac!(1), 2 => $mac!(2), 3 => $mac!(3), 4 => $mac!(4), 5 => $mac!(5), 6 => $mac!(6), 7 => $mac!(7), 8 => $mac!(8), 10 => $mac!(10), _ => Err(NA) } };
}

fn one_by_one<T: Elt>(obs: &[&[T]], out: &mut [T], mut f: impl FnMut(&[T]) -> Result<T, &'static str>) -> R {
    // no allocation here: C15 counts allocations through these entry points
    let mut p = [T::zero(); 16];
    let nd = obs.len();
    let p = &mut p[..nd];
    for i in 0..out.len() {
        for d in 0..nd {
            p[d] = obs[d][i];
        }
        out[i] = f(p)?;
    }
    Ok(())
}

pub fn eval<T: Elt>(p: &Problem<T>, e: Entry, obs: &[&[T]], out: &mut [T]) -> R {
    if p.regular { eval_reg(p, e, obs, out) } else { eval_rect(p, e, obs, out) }
}

fn eval_reg<T: Elt>(p: &Problem<T>, e: Entry, obs: &[&[T]], out: &mut [T]) -> R {
    let (d, s, h, v, lin) = (&p.dims[..], &p.starts[..], &p.steps[..], &p.vals[..], p.lin);
    let nd = d.len();
    match (p.kind, e) {
        (Kind::Linear, Entry::Fn) => multilinear::regular::interpn(d, s, h, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Linear, Entry::FnAlloc) => put(multilinear::regular::interpn_alloc(d, s, h, v, obs), out),
        (Kind::Linear, Entry::RecFn) => multilinear::regular_recursive::interpn(d, s, h, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Linear, Entry::RecFnAlloc) => put(multilinear::regular_recursive::interpn_alloc(d, s, h, v, obs), out),
        (Kind::Cubic, Entry::Fn) => multicubic::regular::interpn(d, s, h, v, lin, obs, out),
        #[cfg(feature = "std")]
        (Kind::Cubic, Entry::FnAlloc) => put(multicubic::regular::interpn_alloc(d, s, h, v, lin, obs), out),
        (Kind::Cubic, Entry::RecFn) => multicubic::regular_recursive::interpn(d, s, h, v, lin, obs, out),
        #[cfg(feature = "std")]
        (Kind::Cubic, Entry::RecFnAlloc) => put(multicubic::regular_recursive::interpn_alloc(d, s, h, v, lin, obs), out),
        (Kind::Nearest, Entry::Fn) => nearest::regular::interpn(d, s, h, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Nearest, Entry::FnAlloc) => put(nearest::regular::interpn_alloc(d, s, h, v, obs), out),
        (Kind::Linear, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let it = multilinear::MultilinearRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 6, m)
        }
        (Kind::Cubic, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let it = multicubic::MulticubicRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v, lin)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 4, m)
        }
        (Kind::Nearest, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let it = nearest::NearestRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 6, m)
        }
        (Kind::Linear, Entry::Rec(mx) | Entry::RecOne(mx)) => {
            macro_rules! m { ($n:tt) => {{
                let it = multilinear::MultilinearRegularRecursive::<T, $n>::new(d, s, h, v)?;
                if let Entry::Rec(_) = e { it.interp(obs, out) } else { one_by_one(obs, out, |x| it.interp_one(x)) }
            }}; }
            flat_dispatch!(mx, rec, m)
        }
        (Kind::Cubic, Entry::Rec(mx) | Entry::RecOne(mx)) => {
            macro_rules! m { ($n:tt) => {{
                let it = multicubic::MulticubicRegularRecursive::<T, $n>::new(d, s, h, v, lin)?;
                if let Entry::Rec(_) = e { it.interp(obs, out) } else { one_by_one(obs, out, |x| it.interp_one(x)) }
            }}; }
            flat_dispatch!(mx, rec, m)
        }
        _ => Err(NA),
    }
}

fn eval_rect<T: Elt>(p: &Problem<T>, e: Entry, obs: &[&[T]], out: &mut [T]) -> R {
    let g: Vec<&[T]> = p.grids.iter().map(|x| &x[..]).collect();
    eval_rect_with(p, &g, e, obs, out)
}

/// Like `eval` on a rectilinear grid, with the slice-of-slices prepared by the caller (no allocation here).
pub fn eval_rect_with<T: Elt>(p: &Problem<T>, g: &[&[T]], e: Entry, obs: &[&[T]], out: &mut [T]) -> R {
    let (v, lin) = (&p.vals[..], p.lin);
    let nd = g.len();
    match (p.kind, e) {
        (Kind::Linear, Entry::Fn) => multilinear::rectilinear::interpn(g, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Linear, Entry::FnAlloc) => put(multilinear::rectilinear::interpn_alloc(g, v, obs), out),
        (Kind::Linear, Entry::RecFn) => multilinear::rectilinear_recursive::interpn(g, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Linear, Entry::RecFnAlloc) => put(multilinear::rectilinear_recursive::interpn_alloc(g, v, obs), out),
        (Kind::Cubic, Entry::Fn) => multicubic::rectilinear::interpn(g, v, lin, obs, out),
        #[cfg(feature = "std")]
        (Kind::Cubic, Entry::FnAlloc) => put(multicubic::rectilinear::interpn_alloc(g, v, lin, obs), out),
        (Kind::Cubic, Entry::RecFn) => multicubic::rectilinear_recursive::interpn(g, v, lin, obs, out),
        #[cfg(feature = "std")]
        (Kind::Cubic, Entry::RecFnAlloc) => put(multicubic::rectilinear_recursive::interpn_alloc(g, v, lin, obs), out),
        (Kind::Nearest, Entry::Fn) => nearest::rectilinear::interpn(g, v, obs, out),
        #[cfg(feature = "std")]
        (Kind::Nearest, Entry::FnAlloc) => put(nearest::rectilinear::interpn_alloc(g, v, obs), out),
        (Kind::Linear, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let ga: [&[T]; $n] = arr(g)?;
                let it = multilinear::MultilinearRectilinear::<T, $n>::new(&ga, v)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 6, m)
        }
        (Kind::Cubic, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let ga: [&[T]; $n] = arr(g)?;
                let it = multicubic::MulticubicRectilinear::<T, $n>::new(&ga, v, lin)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 4, m)
        }
        (Kind::Nearest, Entry::Flat | Entry::FlatOne) => {
            macro_rules! m { ($n:tt) => {{
                let ga: [&[T]; $n] = arr(g)?;
                let it = nearest::NearestRectilinear::<T, $n>::new(&ga, v)?;
                if e == Entry::Flat { it.interp(&arr(obs)?, out) } else { one_by_one(obs, out, |x| it.interp_one(arr(x)?)) }
            }}; }
            flat_dispatch!(nd, 6, m)
        }
        (Kind::Linear, Entry::Rec(mx) | Entry::RecOne(mx)) => {
            macro_rules! m { ($n:tt) => {{
                let it = multilinear::MultilinearRectilinearRecursive::<T, $n>::new(g, v)?;
                if let Entry::Rec(_) = e { it.interp(obs, out) } else { one_by_one(obs, out, |x| it.interp_one(x)) }
            }}; }
            flat_dispatch!(mx, rec, m)
        }
        (Kind::Cubic, Entry::Rec(mx) | Entry::RecOne(mx)) => {
            macro_rules! m { ($n:tt) => {{
                let it = multicubic::MulticubicRectilinearRecursive::<T, $n>::new(g, v, lin)?;
                if let Entry::Rec(_) = e { it.interp(obs, out) } else { one_by_one(obs, out, |x| it.interp_one(x)) }
            }}; }
            flat_dispatch!(mx, rec, m)
        }
        _ => Err(NA),
    }
}
