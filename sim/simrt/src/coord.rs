//! A caller-supplied number type: an f64 whose every operation is a call back
//! into code the simulator controls.
use crate::sched::callback;
use num_traits::{Bounded, Float, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Rem, Sub};

#[derive(Copy, Clone)]
pub struct SimCoord(pub f64);

impl std::fmt::Debug for SimCoord {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl PartialEq for SimCoord {
    fn eq(&self, o: &Self) -> bool {
        callback();
        self.0 == o.0
    }
}
impl PartialOrd for SimCoord {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        callback();
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &Self) -> bool {
        callback();
        self.0 < o.0
    }
    fn le(&self, o: &Self) -> bool {
        callback();
        self.0 <= o.0
    }
    fn gt(&self, o: &Self) -> bool {
        callback();
        self.0 > o.0
    }
    fn ge(&self, o: &Self) -> bool {
        callback();
        self.0 >= o.0
    }
}
macro_rules! bin {
    ($($t:ident $m:ident),*) => { $(impl $t for SimCoord { type Output = SimCoord;
        fn $m(self, o: SimCoord) -> SimCoord { callback(); SimCoord(self.0.$m(o.0)) } })* }
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl AddAssign for SimCoord {
    fn add_assign(&mut self, o: SimCoord) {
        callback();
        self.0 += o.0
    }
}
impl Neg for SimCoord {
    type Output = SimCoord;
    fn neg(self) -> SimCoord {
        callback();
        SimCoord(-self.0)
    }
}
impl Zero for SimCoord {
    fn zero() -> Self {
        callback();
        SimCoord(0.0)
    }
    fn is_zero(&self) -> bool {
        callback();
        self.0 == 0.0
    }
}
impl One for SimCoord {
    fn one() -> Self {
        callback();
        SimCoord(1.0)
    }
}
impl Num for SimCoord {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(SimCoord)
    }
}
impl ToPrimitive for SimCoord {
    fn to_i64(&self) -> Option<i64> {
        callback();
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        callback();
        self.0.to_u64()
    }
    fn to_u32(&self) -> Option<u32> {
        callback();
        self.0.to_u32()
    }
    fn to_f64(&self) -> Option<f64> {
        callback();
        Some(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        callback();
        self.0.to_f32()
    }
}
impl FromPrimitive for SimCoord {
    fn from_i64(n: i64) -> Option<Self> {
        Some(SimCoord(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(SimCoord(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(SimCoord(n))
    }
}
impl NumCast for SimCoord {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        callback();
        n.to_f64().map(SimCoord)
    }
}
impl Bounded for SimCoord {
    fn min_value() -> Self {
        SimCoord(f64::MIN)
    }
    fn max_value() -> Self {
        SimCoord(f64::MAX)
    }
}
impl Signed for SimCoord {
    fn abs(&self) -> Self {
        callback();
        SimCoord(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        callback();
        SimCoord(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn signum(&self) -> Self {
        callback();
        SimCoord(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        callback();
        self.0.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        callback();
        self.0.is_sign_negative()
    }
}
impl Sum for SimCoord {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(SimCoord(0.0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a SimCoord> for SimCoord {
    fn sum<I: Iterator<Item = &'a SimCoord>>(iter: I) -> Self {
        iter.fold(SimCoord(0.0), |a, b| a + *b)
    }
}
macro_rules! un {
    ($($m:ident),*) => { $(fn $m(self) -> Self { callback(); SimCoord(f64::$m(self.0)) })* }
}
macro_rules! konst {
    ($($m:ident),*) => { $(fn $m() -> Self { callback(); SimCoord(<f64 as Float>::$m()) })* }
}
macro_rules! pred {
    ($($m:ident),*) => { $(fn $m(self) -> bool { callback(); f64::$m(self.0) })* }
}
macro_rules! two {
    ($($m:ident),*) => { $(fn $m(self, o: Self) -> Self { callback(); SimCoord(f64::$m(self.0, o.0)) })* }
}
impl Float for SimCoord {
    konst!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    pred!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan,
        asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    two!(powf, log, max, min, hypot, atan2);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        callback();
        SimCoord(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        callback();
        SimCoord(self.0.powi(n))
    }
    fn abs_sub(self, o: Self) -> Self {
        callback();
        SimCoord(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn sin_cos(self) -> (Self, Self) {
        let (a, b) = self.0.sin_cos();
        (SimCoord(a), SimCoord(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        callback();
        Float::integer_decode(self.0)
    }
}
