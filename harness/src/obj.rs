//! Interpolator objects that live across calls (data leaked: the harness is short-lived).
use crate::iface::*;
use crate::num::Elt;
use crate::onedim::Rule;
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Grid1D, Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{multicubic, multilinear, nearest};
use std::marker::PhantomData;

type R = Result<(), &'static str>;
const NA: &str = "harness: not applicable";

pub trait Obj<T> {
    fn one(&self, x: &[T]) -> Result<T, &'static str>;
    fn batch(&self, x: &[&[T]], out: &mut [T]) -> R;
    /// Shareable between threads without locking?
    fn is_sync(&self) -> bool;
}

/// `SYNC` answers at compile time whether `T: Send + Sync`, without requiring it.
pub struct Probe<T>(PhantomData<T>);
pub trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    pub const SYNC: bool = true;
}

struct Flat<I, const N: usize>(I, bool);
struct Rec<I>(I, bool);

macro_rules! flat_obj {
    ($($t:ty),*) => {$(
        impl<T: Elt, const N: usize> Obj<T> for Flat<$t, N> {
            fn one(&self, x: &[T]) -> Result<T, &'static str> { self.0.interp_one(x.try_into().map_err(|_| NA)?) }
            fn batch(&self, x: &[&[T]], out: &mut [T]) -> R { let a: [&[T]; N] = x.try_into().map_err(|_| NA)?; self.0.interp(&a, out) }
            fn is_sync(&self) -> bool { self.1 }
        }
    )*};
}
flat_obj!(
    multilinear::MultilinearRegular<'static, T, N>,
    multilinear::MultilinearRectilinear<'static, T, N>,
    multicubic::MulticubicRegular<'static, T, N>,
    multicubic::MulticubicRectilinear<'static, T, N>,
    nearest::NearestRegular<'static, T, N>,
    nearest::NearestRectilinear<'static, T, N>
);
macro_rules! rec_obj {
    ($($t:ty),*) => {$(
        impl<T: Elt, const N: usize> Obj<T> for Rec<$t> {
            fn one(&self, x: &[T]) -> Result<T, &'static str> { self.0.interp_one(x) }
            fn batch(&self, x: &[&[T]], out: &mut [T]) -> R { self.0.interp(x, out) }
            fn is_sync(&self) -> bool { self.1 }
        }
    )*};
}
rec_obj!(
    multilinear::MultilinearRegularRecursive<'static, T, N>,
    multilinear::MultilinearRectilinearRecursive<'static, T, N>,
    multicubic::MulticubicRegularRecursive<'static, T, N>,
    multicubic::MulticubicRectilinearRecursive<'static, T, N>
);
struct OneD<I, G, T>(I, bool, PhantomData<(G, T)>);
impl<T: Elt, G: Grid1D<'static, T>, I: Interp1D<'static, T, G>> Obj<T> for OneD<I, G, T> {
    fn one(&self, x: &[T]) -> Result<T, &'static str> {
        self.0.eval_one(x[0])
    }
    fn batch(&self, x: &[&[T]], out: &mut [T]) -> R {
        self.0.eval(x[0], out)
    }
    fn is_sync(&self) -> bool {
        self.1
    }
}

fn arr<X: Copy, const N: usize>(s: &[X]) -> Result<[X; N], &'static str> {
    s.try_into().map_err(|_| NA)
}

/// Flattened (`rec == false`) or recursive object with MAXDIMS equal to the dimension count.
pub fn make<T: Elt>(p: &'static Problem<T>, rec: bool) -> Result<Box<dyn Obj<T>>, &'static str> {
    let (d, s, h, v, lin) = (&p.dims[..], &p.starts[..], &p.steps[..], &p.vals[..], p.lin);
    let nd = d.len();
    let g: &'static [&'static [T]] = Box::leak(p.grids.iter().map(|x| &x[..]).collect::<Vec<_>>().into_boxed_slice());
    macro_rules! flat {
        ($n:tt) => {{
            let ga: &'static [&'static [T]; $n] = g.try_into().map_err(|_| NA)?;
            Ok(match (p.kind, p.regular) {
                (Kind::Linear, true) => Box::new(Flat::<_, $n>(multilinear::MultilinearRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v)?, Probe::<multilinear::MultilinearRegular<'static, f64, $n>>::SYNC)) as Box<dyn Obj<T>>,
                (Kind::Linear, false) => Box::new(Flat::<_, $n>(multilinear::MultilinearRectilinear::<T, $n>::new(ga, v)?, Probe::<multilinear::MultilinearRectilinear<'static, f64, $n>>::SYNC)),
                (Kind::Nearest, true) => Box::new(Flat::<_, $n>(nearest::NearestRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v)?, Probe::<nearest::NearestRegular<'static, f64, $n>>::SYNC)),
                (Kind::Nearest, false) => Box::new(Flat::<_, $n>(nearest::NearestRectilinear::<T, $n>::new(ga, v)?, Probe::<nearest::NearestRectilinear<'static, f64, $n>>::SYNC)),
                _ => return Err(NA),
            })
        }};
    }
    macro_rules! flatc {
        ($n:tt) => {{
            let ga: &'static [&'static [T]; $n] = g.try_into().map_err(|_| NA)?;
            Ok(match p.regular {
                true => Box::new(Flat::<_, $n>(multicubic::MulticubicRegular::<T, $n>::new(arr(d)?, arr(s)?, arr(h)?, v, lin)?, Probe::<multicubic::MulticubicRegular<'static, f64, $n>>::SYNC)) as Box<dyn Obj<T>>,
                false => Box::new(Flat::<_, $n>(multicubic::MulticubicRectilinear::<T, $n>::new(ga, v, lin)?, Probe::<multicubic::MulticubicRectilinear<'static, f64, $n>>::SYNC)),
            })
        }};
    }
    macro_rules! recm {
        ($n:tt) => {{
            Ok(match (p.kind, p.regular) {
                (Kind::Linear, true) => Box::new(Rec(multilinear::MultilinearRegularRecursive::<T, $n>::new(d, s, h, v)?, Probe::<multilinear::MultilinearRegularRecursive<'static, f64, $n>>::SYNC)) as Box<dyn Obj<T>>,
                (Kind::Linear, false) => Box::new(Rec(multilinear::MultilinearRectilinearRecursive::<T, $n>::new(g, v)?, Probe::<multilinear::MultilinearRectilinearRecursive<'static, f64, $n>>::SYNC)),
                (Kind::Cubic, true) => Box::new(Rec(multicubic::MulticubicRegularRecursive::<T, $n>::new(d, s, h, v, lin)?, Probe::<multicubic::MulticubicRegularRecursive<'static, f64, $n>>::SYNC)),
                (Kind::Cubic, false) => Box::new(Rec(multicubic::MulticubicRectilinearRecursive::<T, $n>::new(g, v, lin)?, Probe::<multicubic::MulticubicRectilinearRecursive<'static, f64, $n>>::SYNC)),
                _ => return Err(NA),
            })
        }};
    }
    match (rec, p.kind, nd) {
        (false, Kind::Cubic, 1) => flatc!(1),
        (false, Kind::Cubic, 2) => flatc!(2),
        (false, Kind::Cubic, 3) => flatc!(3),
        (false, Kind::Cubic, 4) => flatc!(4),
        (false, Kind::Linear | Kind::Nearest, 1) => flat!(1),
        (false, Kind::Linear | Kind::Nearest, 2) => flat!(2),
        (false, Kind::Linear | Kind::Nearest, 3) => flat!(3),
        (false, Kind::Linear | Kind::Nearest, 4) => flat!(4),
        (false, Kind::Linear | Kind::Nearest, 5) => flat!(5),
        (false, Kind::Linear | Kind::Nearest, 6) => flat!(6),
        (true, _, 1) => recm!(1),
        (true, _, 2) => recm!(2),
        (true, _, 3) => recm!(3),
        (true, _, 4) => recm!(4),
        (true, _, 5) => recm!(5),
        (true, _, 6) => recm!(6),
        (true, _, 7) => recm!(7),
        (true, _, 8) => recm!(8),
        _ => Err(NA),
    }
}

/// One-dimensional interpolator on axis 0 of the problem.
pub fn make1<T: Elt>(p: &'static Problem<T>, rule: Rule) -> Result<Box<dyn Obj<T>>, &'static str> {
    macro_rules! go {
        ($gt:ty, $gf:ty, $g:expr) => {{
            macro_rules! mk {
                ($i:ident) => {
                    Box::new(OneD::<_, $gt, T>($i::new($g), Probe::<$i<$gf>>::SYNC, PhantomData)) as Box<dyn Obj<T>>
                };
            }
            match rule {
                Rule::Linear => mk!(Linear1D),
                Rule::Hold => mk!(LinearHoldLast1D),
                Rule::Left => mk!(Left1D),
                Rule::Right => mk!(Right1D),
                Rule::Nearest => mk!(Nearest1D),
            }
        }};
    }
    Ok(if p.regular {
        go!(RegularGrid1D<'static, T>, RegularGrid1D<'static, f64>, RegularGrid1D::new(p.starts[0], p.steps[0], &p.vals[..])?)
    } else {
        go!(RectilinearGrid1D<'static, T>, RectilinearGrid1D<'static, f64>, RectilinearGrid1D::new(&p.grids[0][..], &p.vals[..])?)
    })
}
