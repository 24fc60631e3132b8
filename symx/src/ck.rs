//! Checked integers over the symbolic scalar: leaving the type's range panics like the real type does.
use crate::ctx::*;
use crate::env::Scal;
use crate::poly::*;
use crate::sym::*;
use num_traits::{AsPrimitive, Bounded, Num, NumAssign, One, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Ck<const LO: i64, const HI: i64>(pub Sym);
pub type U8s = Ck<0, 255>;
pub type I8s = Ck<-128, 127>;
pub type U16s = Ck<0, 65535>;
pub type I32s = Ck<-2147483648, 2147483647>;
pub type U32s = Ck<0, 4294967295>;

/// integer coordinate types
pub trait IntScal<S>:
    nalgebra::Scalar + Copy + Default + std::fmt::Debug + NumAssign + PartialOrd + Bounded + AsPrimitive<S> + AsPrimitive<Self> + mapping_algorithms::types::IsNan
where
    S: Copy + 'static,
{
    fn of_scal(s: S) -> Self;
}
macro_rules! native_int {
    ($($t:ty),*) => {$(
        impl IntScal<f32> for $t {
            fn of_scal(s: f32) -> $t { s as $t }
        }
        impl IntScal<crate::nf::Nf> for $t {
            fn of_scal(s: crate::nf::Nf) -> $t { s.0 as $t }
        }
        impl IntScal<f64> for $t {
            fn of_scal(s: f64) -> $t { s as $t }
        }
    )*};
}
native_int!(u8, i8, u16, i32, u32);
impl<const LO: i64, const HI: i64> IntScal<Sym> for Ck<LO, HI> {
    fn of_scal(s: Sym) -> Self {
        Ck(s)
    }
}

fn checked<const LO: i64, const HI: i64>(s: Sym, what: &str) -> Ck<LO, HI> {
    let p = (*s.poly()).clone();
    if fork(lt0(p.sub(&Poly::int(LO)))) || fork(lt0(Poly::int(HI).sub(&p))) {
        panic!("attempt to {what} with overflow");
    }
    Ck(s)
}
macro_rules! arith {
    ($($tr:ident $m:ident $tra:ident $ma:ident $op:tt $what:literal),*) => {$(
        impl<const LO: i64, const HI: i64> $tr for Ck<LO, HI> {
            type Output = Self;
            fn $m(self, o: Self) -> Self { checked(self.0 $op o.0, $what) }
        }
        impl<const LO: i64, const HI: i64> $tra for Ck<LO, HI> {
            fn $ma(&mut self, o: Self) { *self = *self $op o; }
        }
    )*};
}
arith!(Add add AddAssign add_assign + "add", Sub sub SubAssign sub_assign - "subtract", Mul mul MulAssign mul_assign * "multiply");
macro_rules! quot {
    ($($tr:ident $m:ident $tra:ident $ma:ident),*) => {$(
        impl<const LO: i64, const HI: i64> $tr for Ck<LO, HI> {
            type Output = Self;
            fn $m(self, _: Self) -> Self { unsupported("integer division") }
        }
        impl<const LO: i64, const HI: i64> $tra for Ck<LO, HI> {
            fn $ma(&mut self, _: Self) { unsupported("integer division") }
        }
    )*};
}
quot!(Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl<const LO: i64, const HI: i64> Neg for Ck<LO, HI> {
    type Output = Self;
    fn neg(self) -> Self {
        checked(-self.0, "negate")
    }
}
impl<const LO: i64, const HI: i64> PartialEq for Ck<LO, HI> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const LO: i64, const HI: i64> Eq for Ck<LO, HI> {}
impl<const LO: i64, const HI: i64> PartialOrd for Ck<LO, HI> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &Self) -> bool {
        self.0 < o.0
    }
    fn le(&self, o: &Self) -> bool {
        self.0 <= o.0
    }
    fn gt(&self, o: &Self) -> bool {
        self.0 > o.0
    }
    fn ge(&self, o: &Self) -> bool {
        self.0 >= o.0
    }
}
impl<const LO: i64, const HI: i64> Ord for Ck<LO, HI> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.partial_cmp(o).unwrap()
    }
}
impl<const LO: i64, const HI: i64> std::fmt::Debug for Ck<LO, HI> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<const LO: i64, const HI: i64> std::fmt::Display for Ck<LO, HI> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}
impl<const LO: i64, const HI: i64> Default for Ck<LO, HI> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<const LO: i64, const HI: i64> Zero for Ck<LO, HI> {
    fn zero() -> Self {
        Ck(Sym::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<const LO: i64, const HI: i64> One for Ck<LO, HI> {
    fn one() -> Self {
        Ck(Sym::one())
    }
}
impl<const LO: i64, const HI: i64> Num for Ck<LO, HI> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const LO: i64, const HI: i64> Bounded for Ck<LO, HI> {
    fn min_value() -> Self {
        Ck(Sym::of_q(&qi(LO)))
    }
    fn max_value() -> Self {
        Ck(Sym::of_q(&qi(HI)))
    }
}
impl<const LO: i64, const HI: i64> mapping_algorithms::types::IsNan for Ck<LO, HI> {
    fn is_nan(self) -> bool {
        false
    }
}
impl<const LO: i64, const HI: i64> AsPrimitive<Sym> for Ck<LO, HI> {
    fn as_(self) -> Sym {
        self.0
    }
}
impl<const LO: i64, const HI: i64> AsPrimitive<Ck<LO, HI>> for Ck<LO, HI> {
    fn as_(self) -> Self {
        self
    }
}
impl<const LO: i64, const HI: i64> AsPrimitive<Ck<LO, HI>> for usize {
    fn as_(self) -> Ck<LO, HI> {
        Ck(Sym::of_q(&qi(self as i64)))
    }
}
impl<const LO: i64, const HI: i64> AsPrimitive<f64> for Ck<LO, HI> {
    fn as_(self) -> f64 {
        self.0.as_()
    }
}
impl<const LO: i64, const HI: i64> std::iter::Sum for Ck<LO, HI> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}
