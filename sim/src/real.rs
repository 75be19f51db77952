//! A coordinate type the simulator owns: every arithmetic operation and
//! comparison is one tick of simulated time.

use crate::clock::tick;
use num_traits::{real::Real, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub struct R(pub f64);

impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &R) -> bool {
        tick();
        self.0 < o.0
    }
    fn le(&self, o: &R) -> bool {
        tick();
        self.0 <= o.0
    }
    fn gt(&self, o: &R) -> bool {
        tick();
        self.0 > o.0
    }
    fn ge(&self, o: &R) -> bool {
        tick();
        self.0 >= o.0
    }
}
macro_rules! bin {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for R { type Output = R; fn $f(self, o: R) -> R { tick(); R(self.0 $op o.0) } }
    )*};
}
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        tick();
        R(-self.0)
    }
}
impl Zero for R {
    fn zero() -> R {
        R(0.0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0.0
    }
}
impl One for R {
    fn one() -> R {
        R(1.0)
    }
}
impl Num for R {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<R, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(R)
    }
}
thread_local! {
    /// Coordinates may refuse to be turned into ordinary numbers.
    pub static OPAQUE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl ToPrimitive for R {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64().filter(|_| !OPAQUE.get())
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64().filter(|_| !OPAQUE.get())
    }
    fn to_f32(&self) -> Option<f32> {
        (!OPAQUE.get()).then_some(self.0 as f32)
    }
    fn to_f64(&self) -> Option<f64> {
        (!OPAQUE.get()).then_some(self.0)
    }
}
impl NumCast for R {
    fn from<T: ToPrimitive>(n: T) -> Option<R> {
        n.to_f64().map(R)
    }
}
macro_rules! fw1 { ($($f:ident)*) => {$( fn $f(self) -> R { tick(); R(f64::$f(self.0)) } )*}; }
macro_rules! fw2 { ($($f:ident)*) => {$( fn $f(self, o: R) -> R { tick(); R(f64::$f(self.0, o.0)) } )*}; }
impl Real for R {
    fn min_value() -> R {
        R(f64::MIN)
    }
    fn min_positive_value() -> R {
        R(f64::MIN_POSITIVE)
    }
    fn epsilon() -> R {
        R(f64::EPSILON)
    }
    fn max_value() -> R {
        R(f64::MAX)
    }
    fw1!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    fw2!(powf log max min hypot atan2);
    fn is_sign_positive(self) -> bool {
        tick();
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        tick();
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: R, b: R) -> R {
        tick();
        R(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> R {
        tick();
        R(self.0.powi(n))
    }
    fn abs_sub(self, o: R) -> R {
        tick();
        R((self.0 - o.0).max(0.0))
    }
    fn sin_cos(self) -> (R, R) {
        tick();
        let (s, c) = self.0.sin_cos();
        (R(s), R(c))
    }
}

/// An exact wide coordinate type: more significant bits than any float, and
/// (when `F` is false) no conversion to one. Only what an exact type can do
/// is defined; everything else a coordinate type must name panics.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Wide<const F: bool>(pub i128);

macro_rules! wbin {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl<const F: bool> $t for Wide<F> { type Output = Self; fn $f(self, o: Self) -> Self { Wide(self.0 $op o.0) } }
    )*};
}
wbin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl<const F: bool> Neg for Wide<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Wide(-self.0)
    }
}
impl<const F: bool> Zero for Wide<F> {
    fn zero() -> Self {
        Wide(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const F: bool> One for Wide<F> {
    fn one() -> Self {
        Wide(1)
    }
}
impl<const F: bool> Num for Wide<F> {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ()> {
        i128::from_str_radix(s, r).map(Wide).map_err(|_| ())
    }
}
impl<const F: bool> ToPrimitive for Wide<F> {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64().filter(|_| F)
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64().filter(|_| F)
    }
    fn to_f32(&self) -> Option<f32> {
        F.then_some(self.0 as f32)
    }
    fn to_f64(&self) -> Option<f64> {
        F.then_some(self.0 as f64)
    }
}
impl<const F: bool> NumCast for Wide<F> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_i128().map(Wide)
    }
}
macro_rules! no1 { ($($f:ident)*) => {$( fn $f(self) -> Self { panic!("{} of an exact coordinate", stringify!($f)) } )*}; }
macro_rules! no2 { ($($f:ident)*) => {$( fn $f(self, _: Self) -> Self { panic!("{} of an exact coordinate", stringify!($f)) } )*}; }
macro_rules! id1 { ($($f:ident)*) => {$( fn $f(self) -> Self { self } )*}; }
impl<const F: bool> Real for Wide<F> {
    fn min_value() -> Self {
        Wide(i128::MIN)
    }
    fn min_positive_value() -> Self {
        Wide(1)
    }
    fn epsilon() -> Self {
        Wide(0)
    }
    fn max_value() -> Self {
        Wide(i128::MAX)
    }
    id1!(floor ceil round trunc);
    no1!(recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    no2!(powf log hypot atan2);
    fn fract(self) -> Self {
        Wide(0)
    }
    fn abs(self) -> Self {
        Wide(self.0.abs())
    }
    fn signum(self) -> Self {
        Wide(self.0.signum())
    }
    fn max(self, o: Self) -> Self {
        Wide(self.0.max(o.0))
    }
    fn min(self, o: Self) -> Self {
        Wide(self.0.min(o.0))
    }
    fn is_sign_positive(self) -> bool {
        self.0 >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.0 < 0
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        Wide(self.0 * a.0 + b.0)
    }
    fn powi(self, n: i32) -> Self {
        Wide(self.0.pow(n as u32))
    }
    fn abs_sub(self, o: Self) -> Self {
        Wide((self.0 - o.0).max(0))
    }
    fn sin_cos(self) -> (Self, Self) {
        panic!("sin_cos of an exact coordinate")
    }
}
