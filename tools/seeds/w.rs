// An f64 that counts its operations and notes how deep the stack was at each of them.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;
thread_local! {
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    pub static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline(never)]
fn tick(_arithmetic: bool) {
    let here = 0u8;
    let a = std::hint::black_box(&here as *const u8 as usize);
    OPS.with(|o| o.set(o.get() + 1));
    LOW.with(|l| l.set(l.get().min(a)));
}
/// An f64 that counts its operations and may hand control to a scheduler at each one.
#[derive(Clone, Copy, Debug)]
pub struct W(pub f64);
macro_rules! wop {
    ($t:ident,$f:ident) => {
        impl $t for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                tick(true);
                W($t::$f(self.0, o.0))
            }
        }
    };
}
wop!(Add, add);
wop!(Sub, sub);
wop!(Mul, mul);
wop!(Div, div);
wop!(Rem, rem);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        tick(true);
        W(-self.0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        tick(false);
        self.0 == o.0
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        tick(false);
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &W) -> bool {
        tick(false);
        self.0 < o.0
    }
    fn le(&self, o: &W) -> bool {
        tick(false);
        self.0 <= o.0
    }
    fn gt(&self, o: &W) -> bool {
        tick(false);
        self.0 > o.0
    }
    fn ge(&self, o: &W) -> bool {
        tick(false);
        self.0 >= o.0
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0.0)
    }
    fn is_zero(&self) -> bool {
        tick(false);
        self.0 == 0.0
    }
}
impl One for W {
    fn one() -> W {
        W(1.0)
    }
}
impl Num for W {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<W, ()> {
        Err(())
    }
}
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> {
        tick(false);
        self.0.to_i64()
    }
    fn to_isize(&self) -> Option<isize> {
        tick(false);
        self.0.to_isize()
    }
    fn to_u64(&self) -> Option<u64> {
        tick(false);
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for W {
    fn from<N: ToPrimitive>(n: N) -> Option<W> {
        tick(false);
        n.to_f64().map(W)
    }
}

macro_rules! float_impl {
    ($t:ident, mk=$mk:expr, get=$get:expr, tick=$tick:expr,
     special { $($sp:item)* }, un { $($u:ident)* }, bin { $($b:ident)* }) => {
        impl Float for $t {
            $($sp)*
            $(fn $u(self) -> Self { $tick; $mk(Float::$u($get(self))) })*
            $(fn $b(self, o: Self) -> Self { $tick; $mk(Float::$b($get(self), $get(o))) })*
            fn nan() -> Self { $mk(f64::NAN) }
            fn infinity() -> Self { $mk(f64::INFINITY) }
            fn neg_infinity() -> Self { $mk(f64::NEG_INFINITY) }
            fn neg_zero() -> Self { $mk(-0.0) }
            fn min_value() -> Self { $mk(f64::MIN) }
            fn min_positive_value() -> Self { $mk(f64::MIN_POSITIVE) }
            fn max_value() -> Self { $mk(f64::MAX) }
            fn is_nan(self) -> bool { $get(self).is_nan() }
            fn is_infinite(self) -> bool { $get(self).is_infinite() }
            fn is_finite(self) -> bool { $get(self).is_finite() }
            fn is_normal(self) -> bool { $get(self).is_normal() }
            fn classify(self) -> FpCategory { $get(self).classify() }
            fn is_sign_positive(self) -> bool { $get(self).is_sign_positive() }
            fn is_sign_negative(self) -> bool { $get(self).is_sign_negative() }
            fn powf(self, n: Self) -> Self { $mk($get(self).powf($get(n))) }
            fn sin_cos(self) -> (Self, Self) { let (a, b) = $get(self).sin_cos(); ($mk(a), $mk(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode($get(self)) }
        }
    };
}
float_impl!(W, mk=W, get=|s: W| s.0, tick=tick(true),
    special {
        fn mul_add(self, a: W, b: W) -> W { tick(true); W(f64::mul_add(self.0, a.0, b.0)) }
        fn powi(self, n: i32) -> W { tick(true); W(self.0.powi(n)) }
        fn epsilon() -> W { W(f64::EPSILON) }
    },
    un { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh },
    bin { log max min abs_sub hypot atan2 }
);
