//! f64 as a local type, so that the alignment step of the ICP can be replaced in native runs as well.
use num_traits::*;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformFloat, UniformSampler};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::{PrimitiveSimdValue, SimdValue};
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
pub struct Nf(pub f64);
impl std::fmt::Debug for Nf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Display for Nf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! ops {
    ($($tr:ident $m:ident $tra:ident $ma:ident $op:tt),*) => {$(
        impl $tr for Nf {
            type Output = Nf;
            fn $m(self, o: Nf) -> Nf { Nf(self.0 $op o.0) }
        }
        impl $tra for Nf {
            fn $ma(&mut self, o: Nf) { *self = *self $op o; }
        }
    )*};
}
ops!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for Nf {
    type Output = Nf;
    fn neg(self) -> Nf {
        Nf(-self.0)
    }
}
impl Zero for Nf {
    fn zero() -> Nf {
        Nf(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Nf {
    fn one() -> Nf {
        Nf(1.0)
    }
}
impl Num for Nf {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Nf, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(Nf)
    }
}
impl std::iter::Sum for Nf {
    fn sum<I: Iterator<Item = Nf>>(it: I) -> Nf {
        Nf(it.map(|x| x.0).sum())
    }
}
impl<'a> std::iter::Sum<&'a Nf> for Nf {
    fn sum<I: Iterator<Item = &'a Nf>>(it: I) -> Nf {
        Nf(it.map(|x| x.0).sum())
    }
}
impl std::iter::Product for Nf {
    fn product<I: Iterator<Item = Nf>>(it: I) -> Nf {
        Nf(it.map(|x| x.0).product())
    }
}
impl ToPrimitive for Nf {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Nf {
    fn from<T: ToPrimitive>(n: T) -> Option<Nf> {
        n.to_f64().map(Nf)
    }
}
impl FromPrimitive for Nf {
    fn from_i64(n: i64) -> Option<Nf> {
        Some(Nf(n as f64))
    }
    fn from_u64(n: u64) -> Option<Nf> {
        Some(Nf(n as f64))
    }
    fn from_f64(n: f64) -> Option<Nf> {
        Some(Nf(n))
    }
}
impl Bounded for Nf {
    fn min_value() -> Nf {
        Nf(f64::MIN)
    }
    fn max_value() -> Nf {
        Nf(f64::MAX)
    }
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl AsPrimitive<Nf> for $t {
            fn as_(self) -> Nf { Nf(self as f64) }
        }
        impl AsPrimitive<$t> for Nf {
            fn as_(self) -> $t { self.0 as $t }
        }
    )*};
}
prim!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64);
impl AsPrimitive<Nf> for Nf {
    fn as_(self) -> Nf {
        self
    }
}
impl SimdValue for Nf {
    const LANES: usize = 1;
    type Element = Nf;
    type SimdBool = bool;
    fn splat(val: Nf) -> Nf {
        val
    }
    fn extract(&self, _: usize) -> Nf {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Nf {
        *self
    }
    fn replace(&mut self, _: usize, val: Nf) {
        *self = val
    }
    unsafe fn replace_unchecked(&mut self, _: usize, val: Nf) {
        *self = val
    }
    fn select(self, cond: bool, other: Nf) -> Nf {
        if cond {
            self
        } else {
            other
        }
    }
}
impl PrimitiveSimdValue for Nf {}
impl Field for Nf {}
impl SubsetOf<Nf> for Nf {
    fn to_superset(&self) -> Nf {
        *self
    }
    fn from_superset_unchecked(e: &Nf) -> Nf {
        *e
    }
    fn is_in_subset(_: &Nf) -> bool {
        true
    }
}
impl SubsetOf<Nf> for f64 {
    fn to_superset(&self) -> Nf {
        Nf(*self)
    }
    fn from_superset_unchecked(e: &Nf) -> f64 {
        e.0
    }
    fn is_in_subset(_: &Nf) -> bool {
        true
    }
}
impl SubsetOf<Nf> for f32 {
    fn to_superset(&self) -> Nf {
        Nf(*self as f64)
    }
    fn from_superset_unchecked(e: &Nf) -> f32 {
        e.0 as f32
    }
    fn is_in_subset(_: &Nf) -> bool {
        true
    }
}
impl approx::AbsDiffEq for Nf {
    type Epsilon = Nf;
    fn default_epsilon() -> Nf {
        Nf(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Nf, eps: Nf) -> bool {
        f64::abs_diff_eq(&self.0, &o.0, eps.0)
    }
}
impl approx::RelativeEq for Nf {
    fn default_max_relative() -> Nf {
        Nf(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Nf, eps: Nf, rel: Nf) -> bool {
        f64::relative_eq(&self.0, &o.0, eps.0, rel.0)
    }
}
impl approx::UlpsEq for Nf {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Nf, eps: Nf, n: u32) -> bool {
        f64::ulps_eq(&self.0, &o.0, eps.0, n)
    }
}
impl mapping_algorithms::types::IsNan for Nf {
    fn is_nan(self) -> bool {
        self.0.is_nan()
    }
}
pub struct NfSampler(UniformFloat<f64>);
impl UniformSampler for NfSampler {
    type X = Nf;
    fn new<A: SampleBorrow<Nf> + Sized, B: SampleBorrow<Nf> + Sized>(a: A, b: B) -> Self {
        NfSampler(UniformFloat::new(a.borrow().0, b.borrow().0))
    }
    fn new_inclusive<A: SampleBorrow<Nf> + Sized, B: SampleBorrow<Nf> + Sized>(a: A, b: B) -> Self {
        NfSampler(UniformFloat::new_inclusive(a.borrow().0, b.borrow().0))
    }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Nf {
        Nf(self.0.sample(rng))
    }
}
impl SampleUniform for Nf {
    type Sampler = NfSampler;
}

impl ComplexField for Nf {
    type RealField = Nf;
    fn from_real(re: Nf) -> Nf {
        Nf(<f64 as ComplexField>::from_real(re.0))
    }
    fn real(self) -> Nf {
        Nf(<f64 as ComplexField>::real(self.0))
    }
    fn imaginary(self) -> Nf {
        Nf(<f64 as ComplexField>::imaginary(self.0))
    }
    fn modulus(self) -> Nf {
        Nf(<f64 as ComplexField>::modulus(self.0))
    }
    fn modulus_squared(self) -> Nf {
        Nf(<f64 as ComplexField>::modulus_squared(self.0))
    }
    fn argument(self) -> Nf {
        Nf(<f64 as ComplexField>::argument(self.0))
    }
    fn norm1(self) -> Nf {
        Nf(<f64 as ComplexField>::norm1(self.0))
    }
    fn scale(self, f: Nf) -> Nf {
        Nf(<f64 as ComplexField>::scale(self.0, f.0))
    }
    fn unscale(self, f: Nf) -> Nf {
        Nf(<f64 as ComplexField>::unscale(self.0, f.0))
    }
    fn to_exp(self) -> (Nf, Nf) {
        { let (a, b) = <f64 as ComplexField>::to_exp(self.0); (Nf(a), Nf(b)) }
    }
    fn signum(self) -> Nf {
        Nf(<f64 as ComplexField>::signum(self.0))
    }
    fn floor(self) -> Nf {
        Nf(<f64 as ComplexField>::floor(self.0))
    }
    fn ceil(self) -> Nf {
        Nf(<f64 as ComplexField>::ceil(self.0))
    }
    fn round(self) -> Nf {
        Nf(<f64 as ComplexField>::round(self.0))
    }
    fn trunc(self) -> Nf {
        Nf(<f64 as ComplexField>::trunc(self.0))
    }
    fn fract(self) -> Nf {
        Nf(<f64 as ComplexField>::fract(self.0))
    }
    fn mul_add(self, a: Nf, b: Nf) -> Nf {
        Nf(<f64 as ComplexField>::mul_add(self.0, a.0, b.0))
    }
    fn abs(self) -> Nf {
        Nf(<f64 as ComplexField>::abs(self.0))
    }
    fn hypot(self, o: Nf) -> Nf {
        Nf(<f64 as ComplexField>::hypot(self.0, o.0))
    }
    fn recip(self) -> Nf {
        Nf(<f64 as ComplexField>::recip(self.0))
    }
    fn conjugate(self) -> Nf {
        Nf(<f64 as ComplexField>::conjugate(self.0))
    }
    fn sin(self) -> Nf {
        Nf(<f64 as ComplexField>::sin(self.0))
    }
    fn cos(self) -> Nf {
        Nf(<f64 as ComplexField>::cos(self.0))
    }
    fn sin_cos(self) -> (Nf, Nf) {
        { let (a, b) = <f64 as ComplexField>::sin_cos(self.0); (Nf(a), Nf(b)) }
    }
    fn tan(self) -> Nf {
        Nf(<f64 as ComplexField>::tan(self.0))
    }
    fn asin(self) -> Nf {
        Nf(<f64 as ComplexField>::asin(self.0))
    }
    fn acos(self) -> Nf {
        Nf(<f64 as ComplexField>::acos(self.0))
    }
    fn atan(self) -> Nf {
        Nf(<f64 as ComplexField>::atan(self.0))
    }
    fn sinh(self) -> Nf {
        Nf(<f64 as ComplexField>::sinh(self.0))
    }
    fn cosh(self) -> Nf {
        Nf(<f64 as ComplexField>::cosh(self.0))
    }
    fn tanh(self) -> Nf {
        Nf(<f64 as ComplexField>::tanh(self.0))
    }
    fn asinh(self) -> Nf {
        Nf(<f64 as ComplexField>::asinh(self.0))
    }
    fn acosh(self) -> Nf {
        Nf(<f64 as ComplexField>::acosh(self.0))
    }
    fn atanh(self) -> Nf {
        Nf(<f64 as ComplexField>::atanh(self.0))
    }
    fn log(self, base: Nf) -> Nf {
        Nf(<f64 as ComplexField>::log(self.0, base.0))
    }
    fn log2(self) -> Nf {
        Nf(<f64 as ComplexField>::log2(self.0))
    }
    fn log10(self) -> Nf {
        Nf(<f64 as ComplexField>::log10(self.0))
    }
    fn ln(self) -> Nf {
        Nf(<f64 as ComplexField>::ln(self.0))
    }
    fn ln_1p(self) -> Nf {
        Nf(<f64 as ComplexField>::ln_1p(self.0))
    }
    fn sqrt(self) -> Nf {
        Nf(<f64 as ComplexField>::sqrt(self.0))
    }
    fn exp(self) -> Nf {
        Nf(<f64 as ComplexField>::exp(self.0))
    }
    fn exp2(self) -> Nf {
        Nf(<f64 as ComplexField>::exp2(self.0))
    }
    fn exp_m1(self) -> Nf {
        Nf(<f64 as ComplexField>::exp_m1(self.0))
    }
    fn powi(self, n: i32) -> Nf {
        Nf(<f64 as ComplexField>::powi(self.0, n))
    }
    fn powf(self, n: Nf) -> Nf {
        Nf(<f64 as ComplexField>::powf(self.0, n.0))
    }
    fn powc(self, n: Nf) -> Nf {
        Nf(<f64 as ComplexField>::powc(self.0, n.0))
    }
    fn cbrt(self) -> Nf {
        Nf(<f64 as ComplexField>::cbrt(self.0))
    }
    fn is_finite(&self) -> bool {
        <f64 as ComplexField>::is_finite(&self.0)
    }
    fn try_sqrt(self) -> Option<Nf> {
        <f64 as ComplexField>::try_sqrt(self.0).map(Nf)
    }
}
impl Signed for Nf {
    fn abs(&self) -> Nf {
        Nf(<f64 as Signed>::abs(&self.0))
    }
    fn abs_sub(&self, o: &Nf) -> Nf {
        Nf(<f64 as Signed>::abs_sub(&self.0, &o.0))
    }
    fn signum(&self) -> Nf {
        Nf(<f64 as Signed>::signum(&self.0))
    }
    fn is_positive(&self) -> bool {
        <f64 as Signed>::is_positive(&self.0)
    }
    fn is_negative(&self) -> bool {
        <f64 as Signed>::is_negative(&self.0)
    }
}
impl RealField for Nf {
    fn is_sign_positive(&self) -> bool {
        <f64 as RealField>::is_sign_positive(&self.0)
    }
    fn is_sign_negative(&self) -> bool {
        <f64 as RealField>::is_sign_negative(&self.0)
    }
    fn copysign(self, s: Nf) -> Nf {
        Nf(<f64 as RealField>::copysign(self.0, s.0))
    }
    fn max(self, o: Nf) -> Nf {
        Nf(<f64 as RealField>::max(self.0, o.0))
    }
    fn min(self, o: Nf) -> Nf {
        Nf(<f64 as RealField>::min(self.0, o.0))
    }
    fn clamp(self, min: Nf, max: Nf) -> Nf {
        Nf(<f64 as RealField>::clamp(self.0, min.0, max.0))
    }
    fn atan2(self, o: Nf) -> Nf {
        Nf(<f64 as RealField>::atan2(self.0, o.0))
    }
    fn min_value() -> Option<Nf> {
        <f64 as RealField>::min_value().map(Nf)
    }
    fn max_value() -> Option<Nf> {
        <f64 as RealField>::max_value().map(Nf)
    }
    fn pi() -> Nf {
        Nf(<f64 as RealField>::pi())
    }
    fn two_pi() -> Nf {
        Nf(<f64 as RealField>::two_pi())
    }
    fn frac_pi_2() -> Nf {
        Nf(<f64 as RealField>::frac_pi_2())
    }
    fn frac_pi_3() -> Nf {
        Nf(<f64 as RealField>::frac_pi_3())
    }
    fn frac_pi_4() -> Nf {
        Nf(<f64 as RealField>::frac_pi_4())
    }
    fn frac_pi_6() -> Nf {
        Nf(<f64 as RealField>::frac_pi_6())
    }
    fn frac_pi_8() -> Nf {
        Nf(<f64 as RealField>::frac_pi_8())
    }
    fn frac_1_pi() -> Nf {
        Nf(<f64 as RealField>::frac_1_pi())
    }
    fn frac_2_pi() -> Nf {
        Nf(<f64 as RealField>::frac_2_pi())
    }
    fn frac_2_sqrt_pi() -> Nf {
        Nf(<f64 as RealField>::frac_2_sqrt_pi())
    }
    fn e() -> Nf {
        Nf(<f64 as RealField>::e())
    }
    fn log2_e() -> Nf {
        Nf(<f64 as RealField>::log2_e())
    }
    fn log10_e() -> Nf {
        Nf(<f64 as RealField>::log10_e())
    }
    fn ln_2() -> Nf {
        Nf(<f64 as RealField>::ln_2())
    }
    fn ln_10() -> Nf {
        Nf(<f64 as RealField>::ln_10())
    }
}
impl Float for Nf {
    fn nan() -> Nf {
        Nf(<f64 as Float>::nan())
    }
    fn infinity() -> Nf {
        Nf(<f64 as Float>::infinity())
    }
    fn neg_infinity() -> Nf {
        Nf(<f64 as Float>::neg_infinity())
    }
    fn neg_zero() -> Nf {
        Nf(<f64 as Float>::neg_zero())
    }
    fn min_value() -> Nf {
        Nf(<f64 as Float>::min_value())
    }
    fn min_positive_value() -> Nf {
        Nf(<f64 as Float>::min_positive_value())
    }
    fn max_value() -> Nf {
        Nf(<f64 as Float>::max_value())
    }
    fn epsilon() -> Nf {
        Nf(<f64 as Float>::epsilon())
    }
    fn is_nan(self) -> bool {
        <f64 as Float>::is_nan(self.0)
    }
    fn is_infinite(self) -> bool {
        <f64 as Float>::is_infinite(self.0)
    }
    fn is_finite(self) -> bool {
        <f64 as Float>::is_finite(self.0)
    }
    fn is_normal(self) -> bool {
        <f64 as Float>::is_normal(self.0)
    }
    fn classify(self) -> FpCategory {
        <f64 as Float>::classify(self.0)
    }
    fn floor(self) -> Nf {
        Nf(<f64 as Float>::floor(self.0))
    }
    fn ceil(self) -> Nf {
        Nf(<f64 as Float>::ceil(self.0))
    }
    fn round(self) -> Nf {
        Nf(<f64 as Float>::round(self.0))
    }
    fn trunc(self) -> Nf {
        Nf(<f64 as Float>::trunc(self.0))
    }
    fn fract(self) -> Nf {
        Nf(<f64 as Float>::fract(self.0))
    }
    fn abs(self) -> Nf {
        Nf(<f64 as Float>::abs(self.0))
    }
    fn signum(self) -> Nf {
        Nf(<f64 as Float>::signum(self.0))
    }
    fn is_sign_positive(self) -> bool {
        <f64 as Float>::is_sign_positive(self.0)
    }
    fn is_sign_negative(self) -> bool {
        <f64 as Float>::is_sign_negative(self.0)
    }
    fn mul_add(self, a: Nf, b: Nf) -> Nf {
        Nf(<f64 as Float>::mul_add(self.0, a.0, b.0))
    }
    fn recip(self) -> Nf {
        Nf(<f64 as Float>::recip(self.0))
    }
    fn powi(self, n: i32) -> Nf {
        Nf(<f64 as Float>::powi(self.0, n))
    }
    fn powf(self, n: Nf) -> Nf {
        Nf(<f64 as Float>::powf(self.0, n.0))
    }
    fn sqrt(self) -> Nf {
        Nf(<f64 as Float>::sqrt(self.0))
    }
    fn exp(self) -> Nf {
        Nf(<f64 as Float>::exp(self.0))
    }
    fn exp2(self) -> Nf {
        Nf(<f64 as Float>::exp2(self.0))
    }
    fn ln(self) -> Nf {
        Nf(<f64 as Float>::ln(self.0))
    }
    fn log(self, b: Nf) -> Nf {
        Nf(<f64 as Float>::log(self.0, b.0))
    }
    fn log2(self) -> Nf {
        Nf(<f64 as Float>::log2(self.0))
    }
    fn log10(self) -> Nf {
        Nf(<f64 as Float>::log10(self.0))
    }
    fn max(self, o: Nf) -> Nf {
        Nf(<f64 as Float>::max(self.0, o.0))
    }
    fn min(self, o: Nf) -> Nf {
        Nf(<f64 as Float>::min(self.0, o.0))
    }
    fn abs_sub(self, o: Nf) -> Nf {
        Nf(<f64 as Float>::abs_sub(self.0, o.0))
    }
    fn cbrt(self) -> Nf {
        Nf(<f64 as Float>::cbrt(self.0))
    }
    fn hypot(self, o: Nf) -> Nf {
        Nf(<f64 as Float>::hypot(self.0, o.0))
    }
    fn sin(self) -> Nf {
        Nf(<f64 as Float>::sin(self.0))
    }
    fn cos(self) -> Nf {
        Nf(<f64 as Float>::cos(self.0))
    }
    fn tan(self) -> Nf {
        Nf(<f64 as Float>::tan(self.0))
    }
    fn asin(self) -> Nf {
        Nf(<f64 as Float>::asin(self.0))
    }
    fn acos(self) -> Nf {
        Nf(<f64 as Float>::acos(self.0))
    }
    fn atan(self) -> Nf {
        Nf(<f64 as Float>::atan(self.0))
    }
    fn atan2(self, o: Nf) -> Nf {
        Nf(<f64 as Float>::atan2(self.0, o.0))
    }
    fn sin_cos(self) -> (Nf, Nf) {
        { let (a, b) = <f64 as Float>::sin_cos(self.0); (Nf(a), Nf(b)) }
    }
    fn exp_m1(self) -> Nf {
        Nf(<f64 as Float>::exp_m1(self.0))
    }
    fn ln_1p(self) -> Nf {
        Nf(<f64 as Float>::ln_1p(self.0))
    }
    fn sinh(self) -> Nf {
        Nf(<f64 as Float>::sinh(self.0))
    }
    fn cosh(self) -> Nf {
        Nf(<f64 as Float>::cosh(self.0))
    }
    fn tanh(self) -> Nf {
        Nf(<f64 as Float>::tanh(self.0))
    }
    fn asinh(self) -> Nf {
        Nf(<f64 as Float>::asinh(self.0))
    }
    fn acosh(self) -> Nf {
        Nf(<f64 as Float>::acosh(self.0))
    }
    fn atanh(self) -> Nf {
        Nf(<f64 as Float>::atanh(self.0))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        <f64 as Float>::integer_decode(self.0)
    }
    fn to_degrees(self) -> Nf {
        Nf(<f64 as Float>::to_degrees(self.0))
    }
    fn to_radians(self) -> Nf {
        Nf(<f64 as Float>::to_radians(self.0))
    }
    fn copysign(self, s: Nf) -> Nf {
        Nf(<f64 as Float>::copysign(self.0, s.0))
    }
}
