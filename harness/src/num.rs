#![allow(deprecated)]
//! Number types: the `Elt` view of an element type, double-double `DD`, and the instrumented `W`.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::num::FpCategory;
use std::ops::*;

/// Element types the harness drives the crate with.
pub trait Elt: Float + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// Unit round-off scale used in tolerances.
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn dd(self) -> DD;
    fn bits(self) -> u64;
    fn next_up_(self) -> Self;
    fn next_down_(self) -> Self;
    fn f(self) -> f64 {
        self.dd().hi
    }
    /// Bitwise identity (NaNs all alike).
    fn same(self, o: Self) -> bool {
        (self.is_nan() && o.is_nan()) || self.bits() == o.bits()
    }
}
impl Elt for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 {
        x
    }
    fn dd(self) -> DD {
        DD::from_f64(self)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn next_up_(self) -> Self {
        self.next_up()
    }
    fn next_down_(self) -> Self {
        self.next_down()
    }
}
impl Elt for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn dd(self) -> DD {
        DD::from_f64(self as f64)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn next_up_(self) -> Self {
        self.next_up()
    }
    fn next_down_(self) -> Self {
        self.next_down()
    }
}
impl Elt for DD {
    const NAME: &'static str = "dd";
    const EPS: f64 = 1.3e-31;
    fn of(x: f64) -> DD {
        DD::from_f64(x)
    }
    fn dd(self) -> DD {
        self
    }
    fn bits(self) -> u64 {
        self.hi.to_bits() ^ self.lo.to_bits().rotate_left(17)
    }
    fn next_up_(self) -> Self {
        DD { hi: self.hi.next_up(), lo: self.lo }
    }
    fn next_down_(self) -> Self {
        DD { hi: self.hi.next_down(), lo: self.lo }
    }
}
impl Elt for W {
    const NAME: &'static str = "w";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> W {
        W(x)
    }
    fn dd(self) -> DD {
        DD::from_f64(self.0)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn next_up_(self) -> Self {
        W(self.0.next_up())
    }
    fn next_down_(self) -> Self {
        W(self.0.next_down())
    }
}

// ---------------------------------------------------------------- double-double

#[derive(Clone, Copy, Debug)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}
#[inline]
fn two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    let bb = s - a;
    DD { hi: s, lo: (a - (s - bb)) + (b - bb) }
}
#[inline]
fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD { hi: s, lo: b - (s - a) }
}
#[inline]
fn two_prod(a: f64, b: f64) -> DD {
    let p = a * b;
    DD { hi: p, lo: f64::mul_add(a, b, -p) }
}
impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
    #[inline]
    pub const fn from_f64(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
    fn fix(self) -> DD {
        if self.hi.is_finite() && self.lo.is_finite() { self } else { DD { hi: self.hi + self.lo * 0.0, lo: 0.0 } }
    }
    pub fn absd(self) -> DD {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) { -self } else { self }
    }
}
impl Add for DD {
    type Output = DD;
    #[inline]
    fn add(self, o: DD) -> DD {
        let s = two_sum(self.hi, o.hi);
        let t = two_sum(self.lo, o.lo);
        if !s.hi.is_finite() {
            return DD { hi: s.hi, lo: 0.0 };
        }
        let r = quick(s.hi, s.lo + t.hi);
        quick(r.hi, r.lo + t.lo)
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline]
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline]
    fn mul(self, o: DD) -> DD {
        let p = two_prod(self.hi, o.hi);
        if !p.hi.is_finite() || !p.lo.is_finite() {
            return DD { hi: p.hi, lo: 0.0 };
        }
        quick(p.hi, p.lo + (self.hi * o.lo + self.lo * o.hi))
    }
}
impl Div for DD {
    type Output = DD;
    #[inline]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        if !q1.is_finite() || !o.hi.is_finite() {
            return DD { hi: q1, lo: 0.0 };
        }
        let r = self - o * DD::from_f64(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::from_f64(q2);
        let q3 = r.hi / o.hi;
        (quick(q1, q2) + DD::from_f64(q3)).fix()
    }
}
impl Rem for DD {
    type Output = DD;
    fn rem(self, o: DD) -> DD {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl PartialEq for DD {
    fn eq(&self, o: &DD) -> bool {
        self.hi == o.hi && self.lo == o.lo
    }
}
impl PartialOrd for DD {
    fn partial_cmp(&self, o: &DD) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            x => x,
        }
    }
}
impl Zero for DD {
    fn zero() -> DD {
        DD::ZERO
    }
    fn is_zero(&self) -> bool {
        self.hi == 0.0
    }
}
impl One for DD {
    fn one() -> DD {
        DD::ONE
    }
}
impl Num for DD {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<DD, ()> {
        Err(())
    }
}
impl ToPrimitive for DD {
    fn to_i64(&self) -> Option<i64> {
        let h = self.hi.to_i64()?;
        h.checked_add(self.lo as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        let t = self.trunc();
        if t.lo >= 0.0 { t.hi.to_u64()?.checked_add(t.lo as u64) } else { t.hi.to_u64()?.checked_sub((-t.lo) as u64) }
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.hi)
    }
}
impl NumCast for DD {
    fn from<N: ToPrimitive>(n: N) -> Option<DD> {
        let h = n.to_f64()?;
        // integers beyond 2^53 carry a low part
        if h.abs() >= 9e15
            && h.abs() < 9.2e18
            && let Some(i) = n.to_i64()
        {
            let r = i.wrapping_sub(h as i64);
            return Some(DD { hi: h, lo: r as f64 });
        }
        Some(DD::from_f64(h))
    }
}

// ---------------------------------------------------------------- instrumented number

thread_local! {
    /// (arithmetic, comparison/conversion) operations done by `W` on this thread.
    pub static OPS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    /// Called at every operation when set (scheduler point).
    pub static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}
#[inline]
fn tick(arith: bool) {
    OPS.with(|c| {
        let (a, b) = c.get();
        c.set(if arith { (a + 1, b) } else { (a, b + 1) });
    });
    YIELD.with(|y| {
        if let Some(f) = y.get() {
            f()
        }
    });
}
/// An f64 that counts its operations and may hand control to a scheduler at each one.
#[derive(Clone, Copy, Debug)]
pub struct W(pub f64);
macro_rules! wop {
    ($t:ident,$f:ident) => {
        impl $t for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                tick(true);
                W($t::$f(self.0, o.0))
            }
        }
    };
}
wop!(Add, add);
wop!(Sub, sub);
wop!(Mul, mul);
wop!(Div, div);
wop!(Rem, rem);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        tick(true);
        W(-self.0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        tick(false);
        self.0 == o.0
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        tick(false);
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &W) -> bool {
        tick(false);
        self.0 < o.0
    }
    fn le(&self, o: &W) -> bool {
        tick(false);
        self.0 <= o.0
    }
    fn gt(&self, o: &W) -> bool {
        tick(false);
        self.0 > o.0
    }
    fn ge(&self, o: &W) -> bool {
        tick(false);
        self.0 >= o.0
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0.0)
    }
    fn is_zero(&self) -> bool {
        tick(false);
        self.0 == 0.0
    }
}
impl One for W {
    fn one() -> W {
        W(1.0)
    }
}
impl Num for W {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<W, ()> {
        Err(())
    }
}
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> {
        tick(false);
        self.0.to_i64()
    }
    fn to_isize(&self) -> Option<isize> {
        tick(false);
        self.0.to_isize()
    }
    fn to_u64(&self) -> Option<u64> {
        tick(false);
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for W {
    fn from<N: ToPrimitive>(n: N) -> Option<W> {
        tick(false);
        n.to_f64().map(W)
    }
}

macro_rules! float_impl {
    ($t:ident, mk=$mk:expr, get=$get:expr, tick=$tick:expr,
     special { $($sp:item)* }, un { $($u:ident)* }, bin { $($b:ident)* }) => {
        impl Float for $t {
            $($sp)*
            $(fn $u(self) -> Self { $tick; $mk(Float::$u($get(self))) })*
            $(fn $b(self, o: Self) -> Self { $tick; $mk(Float::$b($get(self), $get(o))) })*
            fn nan() -> Self { $mk(f64::NAN) }
            fn infinity() -> Self { $mk(f64::INFINITY) }
            fn neg_infinity() -> Self { $mk(f64::NEG_INFINITY) }
            fn neg_zero() -> Self { $mk(-0.0) }
            fn min_value() -> Self { $mk(f64::MIN) }
            fn min_positive_value() -> Self { $mk(f64::MIN_POSITIVE) }
            fn max_value() -> Self { $mk(f64::MAX) }
            fn is_nan(self) -> bool { $get(self).is_nan() }
            fn is_infinite(self) -> bool { $get(self).is_infinite() }
            fn is_finite(self) -> bool { $get(self).is_finite() }
            fn is_normal(self) -> bool { $get(self).is_normal() }
            fn classify(self) -> FpCategory { $get(self).classify() }
            fn is_sign_positive(self) -> bool { $get(self).is_sign_positive() }
            fn is_sign_negative(self) -> bool { $get(self).is_sign_negative() }
            fn powf(self, n: Self) -> Self { $mk($get(self).powf($get(n))) }
            fn sin_cos(self) -> (Self, Self) { let (a, b) = $get(self).sin_cos(); ($mk(a), $mk(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode($get(self)) }
        }
    };
}
float_impl!(W, mk=W, get=|s: W| s.0, tick=tick(true),
    special {
        fn mul_add(self, a: W, b: W) -> W { tick(true); W(f64::mul_add(self.0, a.0, b.0)) }
        fn powi(self, n: i32) -> W { tick(true); W(self.0.powi(n)) }
        fn epsilon() -> W { W(f64::EPSILON) }
    },
    un { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh },
    bin { log max min abs_sub hypot atan2 }
);
float_impl!(DD, mk=DD::from_f64, get=|s: DD| s.hi, tick=(),
    special {
        fn mul_add(self, a: DD, b: DD) -> DD { self * a + b }
        fn powi(self, n: i32) -> DD {
            let mut r = DD::ONE;
            for _ in 0..n.unsigned_abs() { r = r * self; }
            if n < 0 { DD::ONE / r } else { r }
        }
        fn epsilon() -> DD { DD::from_f64(1.3e-31) }
        fn floor(self) -> DD {
            let h = self.hi.floor();
            if h == self.hi { quick(h, self.lo.floor()) } else { DD::from_f64(h) }
        }
        fn ceil(self) -> DD { -((-self).floor()) }
        fn trunc(self) -> DD { if self.hi < 0.0 { self.ceil() } else { self.floor() } }
        fn round(self) -> DD {
            let half = DD::from_f64(0.5);
            if self.hi < 0.0 { (self - half).ceil() } else { (self + half).floor() }
        }
        fn fract(self) -> DD { self - self.trunc() }
        fn abs(self) -> DD { self.absd() }
        fn recip(self) -> DD { DD::ONE / self }
        fn max(self, o: DD) -> DD { if self.hi.is_nan() || self < o { o } else { self } }
        fn min(self, o: DD) -> DD { if self.hi.is_nan() || self > o { o } else { self } }
    },
    un { signum sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh },
    bin { log abs_sub hypot atan2 }
);
