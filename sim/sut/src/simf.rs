//! The simulated scalar: an f64 whose every operation is a crash point.
use approx::AbsDiffEq;
use num_traits::*;
use simrt::sched::arith;
use std::fmt;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

#[repr(transparent)]
#[derive(Clone, Copy, Default)]
pub struct SimF(pub f64);

impl fmt::Debug for SimF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl fmt::Display for SimF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl PartialEq for SimF {
    fn eq(&self, o: &SimF) -> bool {
        arith();
        self.0 == o.0
    }
}
impl PartialOrd for SimF {
    fn partial_cmp(&self, o: &SimF) -> Option<std::cmp::Ordering> {
        arith();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! op {
    ($($t:ident $m:ident $ta:ident $ma:ident $o:tt),*) => {$(
        impl $t for SimF { type Output = SimF; fn $m(self, o: SimF) -> SimF { arith(); SimF(self.0 $o o.0) } }
        impl $ta for SimF { fn $ma(&mut self, o: SimF) { arith(); self.0 = self.0 $o o.0 } }
        impl<'a> $ta<&'a SimF> for SimF { fn $ma(&mut self, o: &'a SimF) { arith(); self.0 = self.0 $o o.0 } }
    )*};
}
op!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *,
    Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for SimF {
    type Output = SimF;
    fn neg(self) -> SimF {
        arith();
        SimF(-self.0)
    }
}
impl Sum for SimF {
    fn sum<I: Iterator<Item = SimF>>(it: I) -> SimF {
        it.fold(SimF(0.0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a SimF> for SimF {
    fn sum<I: Iterator<Item = &'a SimF>>(it: I) -> SimF {
        it.fold(SimF(0.0), |a, b| a + *b)
    }
}
impl Zero for SimF {
    fn zero() -> SimF {
        SimF(0.0)
    }
    fn is_zero(&self) -> bool {
        arith();
        self.0 == 0.0
    }
}
impl One for SimF {
    fn one() -> SimF {
        SimF(1.0)
    }
}
impl Num for SimF {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<SimF, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(SimF)
    }
}
impl ToPrimitive for SimF {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        self.0.to_f32()
    }
}
impl NumCast for SimF {
    fn from<T: ToPrimitive>(n: T) -> Option<SimF> {
        arith();
        n.to_f64().map(SimF)
    }
}
impl FromPrimitive for SimF {
    fn from_i64(n: i64) -> Option<SimF> {
        Some(SimF(n as f64))
    }
    fn from_u64(n: u64) -> Option<SimF> {
        Some(SimF(n as f64))
    }
    fn from_f64(n: f64) -> Option<SimF> {
        Some(SimF(n))
    }
}
impl AsPrimitive<usize> for SimF {
    fn as_(self) -> usize {
        self.0 as usize
    }
}
impl MulAdd for SimF {
    type Output = SimF;
    fn mul_add(self, a: SimF, b: SimF) -> SimF {
        arith();
        SimF(f64::mul_add(self.0, a.0, b.0))
    }
}
impl Signed for SimF {
    fn abs(&self) -> SimF {
        arith();
        SimF(self.0.abs())
    }
    fn abs_sub(&self, o: &SimF) -> SimF {
        arith();
        SimF(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn signum(&self) -> SimF {
        arith();
        SimF(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_negative(&self) -> bool {
        self.0.is_sign_negative()
    }
}
impl AbsDiffEq for SimF {
    type Epsilon = SimF;
    fn default_epsilon() -> SimF {
        SimF(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &SimF, e: SimF) -> bool {
        arith();
        (self.0 - o.0).abs() <= e.0
    }
}
impl ndarray::ScalarOperand for SimF {}

macro_rules! un {
    ($($m:ident),*) => {$( fn $m(self) -> SimF { arith(); SimF(f64::$m(self.0)) } )*};
}
macro_rules! cst {
    ($($m:ident),*) => {$( fn $m() -> SimF { SimF(<f64 as Float>::$m()) } )*};
}
impl Float for SimF {
    cst!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt,
        sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn epsilon() -> SimF {
        SimF(f64::EPSILON)
    }
    fn is_nan(self) -> bool {
        arith();
        self.0.is_nan()
    }
    fn is_infinite(self) -> bool {
        self.0.is_infinite()
    }
    fn is_finite(self) -> bool {
        self.0.is_finite()
    }
    fn is_normal(self) -> bool {
        self.0.is_normal()
    }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: SimF, b: SimF) -> SimF {
        arith();
        SimF(f64::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> SimF {
        arith();
        SimF(self.0.powi(n))
    }
    fn powf(self, n: SimF) -> SimF {
        arith();
        SimF(self.0.powf(n.0))
    }
    fn log(self, b: SimF) -> SimF {
        arith();
        SimF(self.0.log(b.0))
    }
    fn max(self, o: SimF) -> SimF {
        arith();
        SimF(self.0.max(o.0))
    }
    fn min(self, o: SimF) -> SimF {
        arith();
        SimF(self.0.min(o.0))
    }
    fn abs_sub(self, o: SimF) -> SimF {
        arith();
        SimF(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn hypot(self, o: SimF) -> SimF {
        arith();
        SimF(self.0.hypot(o.0))
    }
    fn atan2(self, o: SimF) -> SimF {
        arith();
        SimF(self.0.atan2(o.0))
    }
    fn sin_cos(self) -> (SimF, SimF) {
        arith();
        let (a, b) = self.0.sin_cos();
        (SimF(a), SimF(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.0.integer_decode()
    }
}
impl sparseglm::Float for SimF {
    type Lapack = SimF;
}
