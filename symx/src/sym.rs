//! The symbolic scalar. Every trait the library (and nalgebra) asks of a float is implemented here.
use crate::ctx::*;
use crate::poly::*;
use crate::solver::Sort;
use num_traits::{
    AsPrimitive, Bounded, Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive,
    Zero,
};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::{PrimitiveSimdValue, SimdValue};
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

pub fn konst(q: Q) -> Sym {
    if q.is_zero() {
        return Sym(0);
    }
    if q.is_one() {
        return Sym(1);
    }
    with(|c| Sym(c.push_const(q)))
}
pub fn special(v: V) -> Sym {
    with(|c| Sym(c.push_special(v)))
}
pub fn from_f64(x: f64) -> Sym {
    if x.is_nan() {
        special(V::NaN)
    } else if x.is_infinite() {
        special(if x > 0.0 { V::PInf } else { V::NInf })
    } else {
        konst(qf(x))
    }
}
pub fn of_poly(p: Poly) -> Sym {
    with(|c| {
        let (lo, hi) = c.poly_interval(&p);
        Sym(c.push_node(Node { v: V::Fin(Rc::new(p)), lo, hi, gran: None }))
    })
}
/// finite expression computed exactly by an oracle or an axiom
fn node(s: Sym) -> Node {
    with(|c| c.nodes[s.0 as usize].clone())
}
impl Sym {
    pub fn v(self) -> V {
        with(|c| c.nodes[self.0 as usize].v.clone())
    }
    pub fn poly(self) -> Rc<Poly> {
        match self.v() {
            V::Fin(p) => p,
            _ => unsupported("polynomial of a non-finite value"),
        }
    }
    pub fn finite(self) -> bool {
        matches!(self.v(), V::Fin(_))
    }
    pub fn as_const(self) -> Option<Q> {
        match self.v() {
            V::Fin(p) => p.as_const(),
            _ => None,
        }
    }
}

pub fn fork(c: Cond) -> bool {
    with(|x| x.fork(&c))
}

fn tick() {
    with(|c| {
        c.stats.ops += 1;
        if c.stats.ops > c.opts.max_ops {
            abort(Abort::Budget)
        }
    })
}

pub fn free_var(name: &str, lo: Option<Q>, hi: Option<Q>, def: Def) -> Poly {
    with(|c| {
        let id = c.new_var(Var { name: name.to_string(), sort: Sort::Real, lo, hi, gran: None, def });
        Poly::var(id)
    })
}

/// a dyadic number with about 40 significant bits, at least `q`
fn short_above(q: &Q) -> Q {
    if q.is_zero() {
        return q.clone();
    }
    let e = q.numer().bits() as i32 - q.denom().bits() as i32;
    let g = q2(e - 40);
    (q / &g).ceil() * g
}
/// result of a floating-point operation whose exact value is `p`
fn rounded(p: Poly, lo: Option<Q>, hi: Option<Q>, gran: Option<i32>) -> Sym {
    with(|c| {
        let p = c.trig.reduce(p);
        if let Some(q) = p.as_const() {
            let g = gran_of(&q);
            let m = q.abs();
            let ok = g.is_some_and(|g| m <= q2((c.opts.mant + g).min(4000)));
            if ok || c.opts.err.is_none() {
                c.stats.exact_ops += 1;
                return Sym(c.push_const(q));
            }
        }
        // the polynomial's own range may be tighter (cancellation)
        let (pl, ph) = c.poly_interval(&p);
        let lo = match (lo, pl) {
            (Some(a), Some(b)) => Some(a.max(b)),
            (a, b) => a.or(b),
        };
        let hi = match (hi, ph) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        let certified = match (&lo, &hi, gran) {
            (Some(l), Some(h), Some(g)) => {
                let m = l.abs().max(h.abs());
                m <= q2((c.opts.mant + g).min(4000))
            }
            _ => false,
        };
        if certified {
            c.stats.exact_ops += 1;
            return Sym(c.push_node(Node { v: V::Fin(Rc::new(p)), lo, hi, gran }));
        }
        c.stats.inexact_ops += 1;
        if let Some(k) = c.opts.err {
            let m = match (&lo, &hi) {
                (Some(l), Some(h)) => l.abs().max(h.abs()),
                _ => {
                    c.notes.insert("operation without a range: rounding error not modelled".into());
                    return Sym(c.push_node(Node { v: V::Fin(Rc::new(p)), lo, hi, gran: None }));
                }
            };
            // sign-preserving: rounding never moves a value across zero
            let u = short_above(&(m * q2(-k)));
            let id = c.new_var(Var {
                name: "err".into(),
                sort: Sort::Real,
                lo: Some(-u.clone()),
                hi: Some(u.clone()),
                gran: None,
                def: Def::Err,
            });
            let exact = p.clone();
            let mut p = p.add(&Poly::var(id));
            let lo = lo.map(|l| if l.is_negative() { l - &u } else if l.is_zero() { l } else { l * (Q::one() - q2(-k)) });
            let hi = hi.map(|h| if h.is_positive() { h + &u } else if h.is_zero() { h } else { h * (Q::one() - q2(-k)) });
            // short bounds, rounded outwards
            let lo = lo.map(|l| -short_above(&-l));
            let hi = hi.map(|h| short_above(&h));
            if c.opts.name_rounded {
                let r = c.new_var(Var { name: "rounded".into(), sort: Sort::Real, lo: lo.clone(), hi: hi.clone(), gran: None, def: Def::Alias(p.clone()) });
                let v = Poly::var(r);
                let defs = vec![
                    eq0(v.sub(&p)),
                    Cond::or(vec![lt0(exact.clone()), le0(v.neg())]),
                    Cond::or(vec![lt0(exact.neg()), le0(v.clone())]),
                ];
                c.defs.insert(r, defs);
                p = v;
            }
            return Sym(c.push_node(Node { v: V::Fin(Rc::new(p)), lo, hi, gran: None }));
        }
        Sym(c.push_node(Node { v: V::Fin(Rc::new(p)), lo, hi, gran: None }))
    })
}

fn neg_v(v: &V) -> V {
    match v {
        V::Fin(p) => V::Fin(Rc::new(p.neg())),
        V::PInf => V::NInf,
        V::NInf => V::PInf,
        V::NaN => V::NaN,
    }
}

/// sign of a finite value: -1, 0, 1 (forks)
pub fn sign(p: &Poly) -> i32 {
    if fork(lt0(p.clone())) {
        -1
    } else if fork(eq0(p.clone())) {
        0
    } else {
        1
    }
}

fn add_like(a: Sym, b: Sym, sub: bool) -> Sym {
    tick();
    let (x, y) = (node(a), node(b));
    let yv = if sub { neg_v(&y.v) } else { y.v.clone() };
    match (&x.v, &yv) {
        (V::Fin(p), V::Fin(q)) => {
            if q.is_zero() {
                return a;
            }
            if p.is_zero() && !sub {
                return b;
            }
            let add = |u: &Option<Q>, v: &Option<Q>| match (u, v) {
                (Some(u), Some(v)) => Some(if sub { u - v } else { u + v }),
                _ => None,
            };
            let (lo, hi) = if sub {
                (add(&x.lo, &y.hi), add(&x.hi, &y.lo))
            } else {
                (add(&x.lo, &y.lo), add(&x.hi, &y.hi))
            };
            let g = match (x.gran, y.gran) {
                (Some(a), Some(b)) => Some(a.min(b)),
                _ => None,
            };
            rounded(p.add(q), lo, hi, g)
        }
        (V::NaN, _) | (_, V::NaN) | (V::PInf, V::NInf) | (V::NInf, V::PInf) => special(V::NaN),
        (V::PInf, _) | (_, V::PInf) => special(V::PInf),
        (V::NInf, _) | (_, V::NInf) => special(V::NInf),
    }
}
fn mul_(a: Sym, b: Sym) -> Sym {
    tick();
    let (x, y) = (node(a), node(b));
    match (&x.v, &y.v) {
        (V::Fin(p), V::Fin(q)) => {
            if p.is_zero() || q.is_zero() {
                return Sym(0);
            }
            let (lo, hi) = if a.0 == b.0 {
                pow_interval(&x.lo, &x.hi, 2)
            } else {
                mul_interval(&x.lo, &x.hi, &y.lo, &y.hi)
            };
            let g = match (x.gran, y.gran) {
                (Some(a), Some(b)) => Some((a + b).min(1000)),
                _ => None,
            };
            rounded(p.mul(q), lo, hi, g)
        }
        (V::NaN, _) | (_, V::NaN) => special(V::NaN),
        (V::Fin(p), i) | (i, V::Fin(p)) => match sign(p) {
            0 => special(V::NaN),
            1 => special(i.clone()),
            _ => special(neg_v(i)),
        },
        (a, b) => {
            let pos = matches!(a, V::PInf) == matches!(b, V::PInf);
            special(if pos { V::PInf } else { V::NInf })
        }
    }
}
fn div_(a: Sym, b: Sym) -> Sym {
    tick();
    let (x, y) = (node(a), node(b));
    match (&x.v, &y.v) {
        (V::Fin(p), V::Fin(q)) => {
            if fork(eq0((**q).clone())) {
                return match sign(p) {
                    0 => special(V::NaN),
                    1 => special(V::PInf),
                    _ => special(V::NInf),
                };
            }
            if p.is_zero() {
                return Sym(0);
            }
            let div_const = |k: Q| {
                let (mut lo, mut hi) = (x.lo.clone().map(|l| l / &k), x.hi.clone().map(|h| h / &k));
                if k.is_negative() {
                    std::mem::swap(&mut lo, &mut hi);
                }
                let g = match (x.gran, gran_of(&k)) {
                    // exact when dividing by a power of two
                    (Some(g), Some(kg)) if k.abs() == q2(kg) => Some(g - kg),
                    _ => None,
                };
                let g = if p.as_const().is_some() { gran_of(&(p.as_const().unwrap() / &k)) } else { g };
                rounded(p.scale(&(Q::one() / &k)), lo, hi, g)
            };
            if let Some(k) = q.as_const() {
                return div_const(k);
            }
            let (cd, small) = with(|c| {
                let (lo, hi) = c.poly_interval(q);
                let g = y.gran;
                let small = match (lo, hi, g) {
                    (Some(l), Some(h), Some(g)) if g >= 0 => h - l <= qi(64),
                    _ => false,
                };
                (c.opts.concretize_div, small)
            });
            if cd && small {
                let k = with(|c| {
                    c.concretize(q, &|w| w.clone(), &|p, v| eq0(p.sub(&Poly::int(v))))
                });
                return div_const(qi(k));
            }
            // proportional?
            if p.0.len() == q.0.len() && !p.0.is_empty() {
                let k = &p.0[0].1 / &q.0[0].1;
                if **p == q.scale(&k) {
                    return konst(k);
                }
            }
            // by a product of variables that divides every term
            if let [(m, k)] = &q.0[..] {
                if let Some(r) = p.div_mono(m) {
                    let r = r.scale(&(Q::one() / k));
                    let (lo, hi, g) = with(|c| {
                        let (lo, hi) = c.poly_interval(&r);
                        (lo, hi, c.poly_gran(&r))
                    });
                    return rounded(r, lo, hi, g);
                }
            }
            let (lo, hi) = {
                // interval of the divisor, if it stays away from zero
                let inv = match (&y.lo, &y.hi) {
                    (Some(l), Some(h)) if l.is_positive() || h.is_negative() => {
                        (Some(Q::one() / h), Some(Q::one() / l))
                    }
                    (Some(l), _) if y.gran.is_some() && !l.is_negative() => {
                        (Some(Q::zero()), Some(Q::one() / q2(y.gran.unwrap())))
                    }
                    (_, _) if y.gran.is_some() => {
                        let m = Q::one() / q2(y.gran.unwrap());
                        (Some(-m.clone()), Some(m))
                    }
                    _ => (None, None),
                };
                mul_interval(&x.lo, &x.hi, &inv.0, &inv.1)
            };
            let (num, den) = ((**p).clone(), (**q).clone());
            let id = with(|c| {
                let key = format!("div:{num:?}/{den:?}");
                if let Some(id) = c.memo.get(&key) {
                    return *id;
                }
                let id = c.new_var(Var {
                    name: "quot".into(),
                    sort: Sort::Real,
                    lo: lo.clone(),
                    hi: hi.clone(),
                    gran: None,
                    def: Def::Div(num.clone(), den.clone()),
                });
                let con = eq0(Poly::var(id).mul(&den).sub(&num));
                c.defs.insert(id, vec![con]);
                c.memo.insert(key, id);
                id
            });
            rounded(Poly::var(id), lo, hi, None)
        }
        (V::NaN, _) | (_, V::NaN) => special(V::NaN),
        (V::Fin(_), _) => Sym(0),
        (i, V::Fin(q)) => match sign(q) {
            -1 => special(neg_v(i)),
            _ => special(i.clone()),
        },
        _ => special(V::NaN),
    }
}
/// truncated integer quotient cell
fn trunc_cell(n: &Poly, d: &Poly, k: i64) -> Cond {
    // d > 0
    let kd = d.scale(&qi(k));
    if k > 0 {
        Cond::and(vec![le0(kd.sub(n)), lt0(n.sub(&kd.add(d)))])
    } else if k < 0 {
        Cond::and(vec![le0(n.sub(&kd)), lt0(kd.sub(d).sub(n))])
    } else {
        Cond::and(vec![lt0(n.sub(d)), lt0(n.neg().sub(d))])
    }
}
fn rem_(a: Sym, b: Sym) -> Sym {
    tick();
    match (a.v(), b.v()) {
        (V::Fin(n), V::Fin(d)) => {
            let s = sign(&d);
            if s == 0 {
                return special(V::NaN);
            }
            let d = if s < 0 { d.neg() } else { (*d).clone() };
            if let (Some(x), Some(y)) = (n.as_const(), d.as_const()) {
                let k = (&x / &y).trunc();
                return konst(x - y * k);
            }
            // k is found by trying candidates outwards; the range is bounded by the decision budget
            let mut k: i64 = 0;
            loop {
                if fork(trunc_cell(&n, &d, k)) {
                    break;
                }
                k = if k > 0 { -k } else { -k + 1 };
            }
            of_poly(n.sub(&d.scale(&qi(k))))
        }
        (V::NaN, _) | (_, V::NaN) | (V::PInf, _) | (V::NInf, _) => special(V::NaN),
        (V::Fin(_), _) => a,
    }
}

macro_rules! ops {
    ($($tr:ident $m:ident $tra:ident $ma:ident $f:expr;)*) => {$(
        impl $tr for Sym { type Output = Sym; fn $m(self, o: Sym) -> Sym { $f(self, o) } }
        impl<'a> $tr<&'a Sym> for Sym { type Output = Sym; fn $m(self, o: &'a Sym) -> Sym { $f(self, *o) } }
        impl<'a> $tr<Sym> for &'a Sym { type Output = Sym; fn $m(self, o: Sym) -> Sym { $f(*self, o) } }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym { type Output = Sym; fn $m(self, o: &'b Sym) -> Sym { $f(*self, *o) } }
        impl $tra for Sym { fn $ma(&mut self, o: Sym) { *self = $f(*self, o) } }
        impl<'a> $tra<&'a Sym> for Sym { fn $ma(&mut self, o: &'a Sym) { *self = $f(*self, *o) } }
    )*}
}
ops! {
    Add add AddAssign add_assign |a, b| add_like(a, b, false);
    Sub sub SubAssign sub_assign |a, b| add_like(a, b, true);
    Mul mul MulAssign mul_assign mul_;
    Div div DivAssign div_assign div_;
    Rem rem RemAssign rem_assign rem_;
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        let n = node(self);
        if let Some(q) = self.as_const() {
            return konst(-q);
        }
        with(|c| {
            Sym(c.push_node(Node {
                v: neg_v(&n.v),
                lo: n.hi.map(|h| -h),
                hi: n.lo.map(|l| -l),
                gran: n.gran,
            }))
        })
    }
}

pub fn lt_cond(a: Sym, b: Sym) -> Cond {
    match (a.v(), b.v()) {
        (V::Fin(p), V::Fin(q)) => lt0(p.sub(&q)),
        (V::NaN, _) | (_, V::NaN) => Cond::F,
        (V::NInf, V::NInf) | (V::PInf, V::PInf) => Cond::F,
        (V::NInf, _) | (_, V::PInf) => Cond::T,
        _ => Cond::F,
    }
}
pub fn eq_cond(a: Sym, b: Sym) -> Cond {
    match (a.v(), b.v()) {
        (V::Fin(p), V::Fin(q)) => eq0(p.sub(&q)),
        (V::NInf, V::NInf) | (V::PInf, V::PInf) => Cond::T,
        _ => Cond::F,
    }
}
pub fn is_nan(a: Sym) -> bool {
    matches!(a.v(), V::NaN)
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        tick();
        fork(eq_cond(*self, *o))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        tick();
        if is_nan(*self) || is_nan(*o) {
            return None;
        }
        Some(if fork(lt_cond(*self, *o)) {
            Ordering::Less
        } else if fork(eq_cond(*self, *o)) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        tick();
        fork(lt_cond(*self, *o))
    }
    fn gt(&self, o: &Sym) -> bool {
        tick();
        fork(lt_cond(*o, *self))
    }
    fn le(&self, o: &Sym) -> bool {
        tick();
        !is_nan(*self) && !is_nan(*o) && !fork(lt_cond(*o, *self))
    }
    fn ge(&self, o: &Sym) -> bool {
        tick();
        !is_nan(*self) && !is_nan(*o) && !fork(lt_cond(*self, *o))
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.v() {
            V::Fin(p) => {
                let mut s = String::new();
                p.smt(&mut s);
                write!(f, "{s}")
            }
            v => write!(f, "{v:?}"),
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym(0)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        fork(eq_cond(*self, Sym(0)))
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym(0), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym(1), |a, b| a * b)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}

/// integer part towards zero, concretised
pub fn trunc_i64(a: Sym) -> Option<i64> {
    match a.v() {
        V::NaN => Some(0),
        V::PInf | V::NInf => None,
        V::Fin(p) => Some(with(|c| {
            c.concretize(&p, &|w| w.trunc(), &|p, v| trunc_cell(p, &Poly::int(1), v))
        })),
    }
}
pub fn floor_i64(a: Sym) -> i64 {
    match a.v() {
        V::Fin(p) => with(|c| {
            c.concretize(&p, &|w| w.floor(), &|p, v| {
                Cond::and(vec![
                    le0(Poly::int(v).sub(p)),
                    lt0(p.sub(&Poly::int(v + 1))),
                ])
            })
        }),
        _ => unsupported("floor of a non-finite value"),
    }
}

impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        trunc_i64(*self)
    }
    fn to_u64(&self) -> Option<u64> {
        trunc_i64(*self).and_then(|x| u64::try_from(x).ok())
    }
    fn to_f64(&self) -> Option<f64> {
        match self.as_const() {
            Some(q) => Some(q_to_f64(&q)),
            None => unsupported("symbolic value converted to f64"),
        }
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        // integers exactly, everything else through f64
        let f = n.to_f64()?;
        if f.fract() == 0.0 && f.abs() < 9e15 {
            Some(konst(qf(f)))
        } else {
            Some(from_f64(f))
        }
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(konst(qi(n)))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(konst(Q::from_integer(n.into())))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(from_f64(n))
    }
}
impl Bounded for Sym {
    fn min_value() -> Sym {
        konst(qf(f64::MIN))
    }
    fn max_value() -> Sym {
        konst(qf(f64::MAX))
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl AsPrimitive<Sym> for $t { fn as_(self) -> Sym { konst(Q::from_integer(self.into())) } }
    )*}
}
from_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl AsPrimitive<Sym> for f32 {
    fn as_(self) -> Sym {
        from_f64(self as f64)
    }
}
impl AsPrimitive<Sym> for f64 {
    fn as_(self) -> Sym {
        from_f64(self)
    }
}
impl AsPrimitive<Sym> for Sym {
    fn as_(self) -> Sym {
        self
    }
}
macro_rules! to_int {
    ($($t:ty),*) => {$(
        impl AsPrimitive<$t> for Sym {
            fn as_(self) -> $t {
                match trunc_i64(self) {
                    Some(v) => {
                        if (v as i128) < (<$t>::MIN as i128) { <$t>::MIN }
                        else if (v as i128) > (<$t>::MAX as i128) { <$t>::MAX }
                        else { v as $t }
                    }
                    None => if matches!(self.v(), V::PInf) { <$t>::MAX } else { <$t>::MIN },
                }
            }
        }
    )*}
}
to_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl AsPrimitive<f64> for Sym {
    fn as_(self) -> f64 {
        self.to_f64().unwrap()
    }
}
impl AsPrimitive<f32> for Sym {
    fn as_(self) -> f32 {
        self.to_f64().unwrap() as f32
    }
}

// ---- simba / approx
impl SimdValue for Sym {
    const LANES: usize = 1;
    type Element = Sym;
    type SimdBool = bool;
    fn splat(val: Sym) -> Sym {
        val
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, val: Sym) {
        *self = val
    }
    unsafe fn replace_unchecked(&mut self, _: usize, val: Sym) {
        *self = val
    }
    fn select(self, cond: bool, other: Sym) -> Sym {
        if cond {
            self
        } else {
            other
        }
    }
}
impl PrimitiveSimdValue for Sym {}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
impl SubsetOf<Sym> for f64 {
    fn to_superset(&self) -> Sym {
        from_f64(*self)
    }
    fn from_superset_unchecked(e: &Sym) -> f64 {
        e.to_f64().unwrap()
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
impl SubsetOf<Sym> for f32 {
    fn to_superset(&self) -> Sym {
        from_f64(*self as f64)
    }
    fn from_superset_unchecked(e: &Sym) -> f32 {
        e.to_f64().unwrap() as f32
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        konst(qf(f64::EPSILON))
    }
    fn abs_diff_eq(&self, o: &Sym, eps: Sym) -> bool {
        abs_(*self - *o) <= eps
    }
}
impl approx::RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        konst(qf(f64::EPSILON))
    }
    fn relative_eq(&self, o: &Sym, eps: Sym, max_rel: Sym) -> bool {
        if *self == *o {
            return true;
        }
        if !self.finite() || !o.finite() {
            return false;
        }
        let d = abs_(*self - *o);
        if d <= eps {
            return true;
        }
        let (a, b) = (abs_(*self), abs_(*o));
        let l = if b > a { b } else { a };
        d <= l * max_rel
    }
}
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, eps: Sym, _: u32) -> bool {
        approx::AbsDiffEq::abs_diff_eq(self, o, eps)
    }
}

// ---- functions
pub fn abs_(a: Sym) -> Sym {
    tick();
    match a.v() {
        V::NInf => special(V::PInf),
        V::Fin(p) => {
            if with(|c| c.opts.merge_minmax) && p.as_const().is_none() {
                return minmax(a, -a, true);
            }
            if fork(lt0((*p).clone())) {
                -a
            } else {
                a
            }
        }
        _ => a,
    }
}
pub fn minmax(a: Sym, b: Sym, max: bool) -> Sym {
    tick();
    if is_nan(a) {
        return b;
    }
    if is_nan(b) {
        return a;
    }
    let c = if max { lt_cond(a, b) } else { lt_cond(b, a) };
    let c = with(|x| x.fold(&c));
    match c {
        Cond::T => return b,
        Cond::F => return a,
        _ => {}
    }
    let merge = with(|c| c.opts.merge_minmax);
    if merge && a.finite() && b.finite() {
        let (na, nb) = (node(a), node(b));
        let (p, q) = (a.poly(), b.poly());
        let pick = |x: Option<Q>, y: Option<Q>| match (x, y) {
            (Some(x), Some(y)) => Some(if max { x.max(y) } else { x.min(y) }),
            _ => None,
        };
        let lo = pick(na.lo.clone(), nb.lo.clone());
        let hi = pick(na.hi.clone(), nb.hi.clone());
        let gran = match (na.gran, nb.gran) {
            (Some(a), Some(b)) => Some(a.min(b)),
            _ => None,
        };
        return with(|c| {
            let key = format!("mm{max}:{p:?}|{q:?}");
            let id = match c.memo.get(&key) {
                Some(id) => *id,
                None => {
                    let id = c.new_var(Var {
                        name: "minmax".into(),
                        sort: Sort::Real,
                        lo: lo.clone(),
                        hi: hi.clone(),
                        gran,
                        def: Def::Min(vec![(*p).clone(), (*q).clone()], max),
                    });
                    let m = Poly::var(id);
                    let (dp, dq) = (m.sub(&p), m.sub(&q));
                    let (dp2, dq2) = if max { (dp.neg(), dq.neg()) } else { (dp.clone(), dq.clone()) };
                    let d = vec![le0(dp2), le0(dq2), Cond::or(vec![eq0(dp), eq0(dq)])];
                    c.defs.insert(id, d);
                    c.memo.insert(key, id);
                    id
                }
            };
            Sym(c.push_node(Node { v: V::Fin(Rc::new(Poly::var(id))), lo, hi, gran }))
        });
    }
    if fork(c) {
        b
    } else {
        a
    }
}
pub fn sqrt_(a: Sym) -> Sym {
    tick();
    match a.v() {
        V::NaN | V::NInf => special(V::NaN),
        V::PInf => a,
        V::Fin(p) => {
            if p.is_zero() {
                return a;
            }
            if fork(lt0((*p).clone())) {
                return special(V::NaN);
            }
            if let Some(q) = p.as_const() {
                if let Some(r) = rat_sqrt(&q) {
                    return konst(r);
                }
            }
            if fork(eq0((*p).clone())) {
                return Sym(0);
            }
            // sqrt(k^2 m^2...) of a perfect-square monomial: |..|
            let n = node(a);
            let up = |q: Q, hi: bool| {
                // rational bound of the square root
                let f = q_to_f64(&q).sqrt();
                let g = if hi { f * (1.0 + 1e-12) } else { f * (1.0 - 1e-12) };
                if g.is_finite() {
                    Some(qf(g))
                } else {
                    None
                }
            };
            let lo = n.lo.and_then(|l| if l.is_negative() { None } else { up(l, false) }).or(Some(Q::zero()));
            let hi = n.hi.and_then(|h| up(h, true));
            let id = with(|c| {
                let key = format!("sqrt:{p:?}");
                if let Some(id) = c.memo.get(&key) {
                    return *id;
                }
                let id = c.new_var(Var {
                    name: "sqrt".into(),
                    sort: Sort::Real,
                    lo: lo.clone(),
                    hi: hi.clone(),
                    gran: None,
                    def: Def::Sqrt((*p).clone()),
                });
                let d = vec![eq0(Poly::var(id).mul(&Poly::var(id)).sub(&p)), lt0(Poly::var(id).neg())];
                c.conset.insert(d[1].clone());
                c.defs.insert(id, d);
                c.trig.red.insert(id, (*p).clone());
                c.memo.insert(key, id);
                id
            });
            rounded(Poly::var(id), lo, hi, None)
        }
    }
}
pub fn powi_(a: Sym, n: i32) -> Sym {
    if n < 0 {
        return Sym(1) / powi_(a, -n);
    }
    let mut r = Sym(1);
    for _ in 0..n {
        r = r * a;
    }
    r
}
fn to_radians_(a: Sym) -> Sym {
    match a.v() {
        V::Fin(p) => {
            let pi = crate::trig::pi_poly();
            rounded_noerr(p.mul(&pi).scale(&qr(1, 180)))
        }
        _ => a,
    }
}
fn to_degrees_(a: Sym) -> Sym {
    a * konst(qi(180)) / pi_()
}
fn rounded_noerr(p: Poly) -> Sym {
    of_poly(with(|c| c.trig.reduce(p)))
}
pub fn pi_() -> Sym {
    of_poly(crate::trig::pi_poly())
}
fn floor_(a: Sym) -> Sym {
    if !a.finite() {
        return a;
    }
    konst(qi(floor_i64(a)))
}
fn ceil_(a: Sym) -> Sym {
    -floor_(-a)
}
fn trunc_(a: Sym) -> Sym {
    if !a.finite() {
        return a;
    }
    konst(qi(trunc_i64(a).unwrap()))
}
fn round_(a: Sym) -> Sym {
    if !a.finite() {
        return a;
    }
    // half away from zero
    if a < Sym(0) {
        -floor_(-a + konst(qr(1, 2)))
    } else {
        floor_(a + konst(qr(1, 2)))
    }
}
fn signum_(a: Sym) -> Sym {
    match a.v() {
        V::NaN => a,
        V::PInf => Sym(1),
        V::NInf => -Sym(1),
        V::Fin(p) => {
            if fork(lt0((*p).clone())) {
                -Sym(1)
            } else {
                Sym(1)
            }
        }
    }
}
fn copysign_(a: Sym, s: Sym) -> Sym {
    let m = abs_(a);
    if s < Sym(0) {
        -m
    } else {
        m
    }
}
fn hypot_(a: Sym, b: Sym) -> Sym {
    sqrt_(a * a + b * b)
}
fn un(name: &str) -> ! {
    unsupported(&format!("function {name} of a symbolic value"))
}
/// transcendental function of a constant runs natively, of a symbolic value is unsupported
fn native1(a: Sym, name: &str, f: fn(f64) -> f64) -> Sym {
    match a.v() {
        V::Fin(p) => match p.as_const() {
            Some(q) => from_f64(f(q_to_f64(&q))),
            None => un(name),
        },
        V::NaN => a,
        V::PInf => from_f64(f(f64::INFINITY)),
        V::NInf => from_f64(f(f64::NEG_INFINITY)),
    }
}
pub fn sin_cos_(a: Sym) -> (Sym, Sym) {
    tick();
    match a.v() {
        V::Fin(p) => {
            let (c, s) = crate::trig::cos_sin(&p);
            (of_poly(s), of_poly(c))
        }
        _ => (special(V::NaN), special(V::NaN)),
    }
}
pub fn atan2_(y: Sym, x: Sym) -> Sym {
    tick();
    if is_nan(x) || is_nan(y) {
        return special(V::NaN);
    }
    if !x.finite() || !y.finite() {
        unsupported("atan2 of an infinite value");
    }
    crate::trig::atan2(y, x)
}

impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        Sym(0)
    }
    fn modulus(self) -> Sym {
        abs_(self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if self >= Sym(0) {
            Sym(0)
        } else {
            pi_()
        }
    }
    fn norm1(self) -> Sym {
        abs_(self)
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn to_exp(self) -> (Sym, Sym) {
        if self >= Sym(0) {
            (self, Sym(1))
        } else {
            (-self, -Sym(1))
        }
    }
    fn signum(self) -> Sym {
        signum_(self)
    }
    fn floor(self) -> Sym {
        floor_(self)
    }
    fn ceil(self) -> Sym {
        ceil_(self)
    }
    fn round(self) -> Sym {
        round_(self)
    }
    fn trunc(self) -> Sym {
        trunc_(self)
    }
    fn fract(self) -> Sym {
        self - trunc_(self)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn abs(self) -> Sym {
        abs_(self)
    }
    fn hypot(self, o: Sym) -> Sym {
        hypot_(self, o)
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn sin(self) -> Sym {
        sin_cos_(self).0
    }
    fn cos(self) -> Sym {
        sin_cos_(self).1
    }
    fn sin_cos(self) -> (Sym, Sym) {
        sin_cos_(self)
    }
    fn tan(self) -> Sym {
        let (s, c) = sin_cos_(self);
        s / c
    }
    fn asin(self) -> Sym {
        atan2_(self, sqrt_(Sym(1) - self * self))
    }
    fn acos(self) -> Sym {
        atan2_(sqrt_(Sym(1) - self * self), self)
    }
    fn atan(self) -> Sym {
        atan2_(self, Sym(1))
    }
    fn sinh(self) -> Sym {
        native1(self, "sinh", f64::sinh)
    }
    fn cosh(self) -> Sym {
        native1(self, "cosh", f64::cosh)
    }
    fn tanh(self) -> Sym {
        native1(self, "tanh", f64::tanh)
    }
    fn asinh(self) -> Sym {
        native1(self, "asinh", f64::asinh)
    }
    fn acosh(self) -> Sym {
        native1(self, "acosh", f64::acosh)
    }
    fn atanh(self) -> Sym {
        native1(self, "atanh", f64::atanh)
    }
    fn log(self, base: Sym) -> Sym {
        ComplexField::ln(self) / ComplexField::ln(base)
    }
    fn log2(self) -> Sym {
        native1(self, "log2", f64::log2)
    }
    fn log10(self) -> Sym {
        native1(self, "log10", f64::log10)
    }
    fn ln(self) -> Sym {
        native1(self, "ln", f64::ln)
    }
    fn ln_1p(self) -> Sym {
        native1(self, "ln_1p", f64::ln_1p)
    }
    fn sqrt(self) -> Sym {
        sqrt_(self)
    }
    fn exp(self) -> Sym {
        native1(self, "exp", f64::exp)
    }
    fn exp2(self) -> Sym {
        native1(self, "exp2", f64::exp2)
    }
    fn exp_m1(self) -> Sym {
        native1(self, "exp_m1", f64::exp_m1)
    }
    fn powi(self, n: i32) -> Sym {
        powi_(self, n)
    }
    fn powf(self, n: Sym) -> Sym {
        match n.as_const() {
            Some(q) if q.is_integer() => powi_(self, q.to_integer().to_i32().unwrap()),
            Some(q) if q == qr(1, 2) => sqrt_(self),
            _ => un("powf"),
        }
    }
    fn powc(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn cbrt(self) -> Sym {
        native1(self, "cbrt", f64::cbrt)
    }
    fn is_finite(&self) -> bool {
        self.finite()
    }
    fn try_sqrt(self) -> Option<Sym> {
        if self >= Sym(0) {
            Some(sqrt_(self))
        } else {
            None
        }
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        abs_(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o {
            Sym(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Sym {
        signum_(*self)
    }
    fn is_positive(&self) -> bool {
        fork(lt_cond(Sym(0), *self))
    }
    fn is_negative(&self) -> bool {
        fork(lt_cond(*self, Sym(0)))
    }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        !fork(lt_cond(*self, Sym(0)))
    }
    fn is_sign_negative(&self) -> bool {
        fork(lt_cond(*self, Sym(0)))
    }
    fn copysign(self, s: Sym) -> Sym {
        copysign_(self, s)
    }
    fn max(self, o: Sym) -> Sym {
        minmax(self, o, true)
    }
    fn min(self, o: Sym) -> Sym {
        minmax(self, o, false)
    }
    fn clamp(self, min: Sym, max: Sym) -> Sym {
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
    fn atan2(self, o: Sym) -> Sym {
        atan2_(self, o)
    }
    fn min_value() -> Option<Sym> {
        Some(konst(qf(f64::MIN)))
    }
    fn max_value() -> Option<Sym> {
        Some(konst(qf(f64::MAX)))
    }
    fn pi() -> Sym {
        pi_()
    }
    fn two_pi() -> Sym {
        of_poly(pi_().poly().scale(&qi(2)))
    }
    fn frac_pi_2() -> Sym {
        of_poly(pi_().poly().scale(&qr(1, 2)))
    }
    fn frac_pi_3() -> Sym {
        pi_() / konst(qi(3))
    }
    fn frac_pi_4() -> Sym {
        of_poly(pi_().poly().scale(&qr(1, 4)))
    }
    fn frac_pi_6() -> Sym {
        pi_() / konst(qi(6))
    }
    fn frac_pi_8() -> Sym {
        pi_() / konst(qi(8))
    }
    fn frac_1_pi() -> Sym {
        from_f64(std::f64::consts::FRAC_1_PI)
    }
    fn frac_2_pi() -> Sym {
        from_f64(std::f64::consts::FRAC_2_PI)
    }
    fn frac_2_sqrt_pi() -> Sym {
        from_f64(std::f64::consts::FRAC_2_SQRT_PI)
    }
    fn e() -> Sym {
        from_f64(std::f64::consts::E)
    }
    fn log2_e() -> Sym {
        from_f64(std::f64::consts::LOG2_E)
    }
    fn log10_e() -> Sym {
        from_f64(std::f64::consts::LOG10_E)
    }
    fn ln_2() -> Sym {
        from_f64(std::f64::consts::LN_2)
    }
    fn ln_10() -> Sym {
        from_f64(std::f64::consts::LN_10)
    }
}
impl Float for Sym {
    fn nan() -> Sym {
        special(V::NaN)
    }
    fn infinity() -> Sym {
        special(V::PInf)
    }
    fn neg_infinity() -> Sym {
        special(V::NInf)
    }
    fn neg_zero() -> Sym {
        Sym(0)
    }
    fn min_value() -> Sym {
        konst(qf(f64::MIN))
    }
    fn min_positive_value() -> Sym {
        konst(qf(f64::MIN_POSITIVE))
    }
    fn max_value() -> Sym {
        konst(qf(f64::MAX))
    }
    fn epsilon() -> Sym {
        konst(qf(f64::EPSILON))
    }
    fn is_nan(self) -> bool {
        is_nan(self)
    }
    fn is_infinite(self) -> bool {
        matches!(self.v(), V::PInf | V::NInf)
    }
    fn is_finite(self) -> bool {
        self.finite()
    }
    fn is_normal(self) -> bool {
        self.finite() && !fork(eq_cond(self, Sym(0)))
    }
    fn classify(self) -> FpCategory {
        match self.v() {
            V::NaN => FpCategory::Nan,
            V::PInf | V::NInf => FpCategory::Infinite,
            _ => {
                if fork(eq_cond(self, Sym(0))) {
                    FpCategory::Zero
                } else {
                    FpCategory::Normal
                }
            }
        }
    }
    fn floor(self) -> Sym {
        floor_(self)
    }
    fn ceil(self) -> Sym {
        ceil_(self)
    }
    fn round(self) -> Sym {
        round_(self)
    }
    fn trunc(self) -> Sym {
        trunc_(self)
    }
    fn fract(self) -> Sym {
        self - trunc_(self)
    }
    fn abs(self) -> Sym {
        abs_(self)
    }
    fn signum(self) -> Sym {
        signum_(self)
    }
    fn is_sign_positive(self) -> bool {
        !fork(lt_cond(self, Sym(0)))
    }
    fn is_sign_negative(self) -> bool {
        fork(lt_cond(self, Sym(0)))
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        powi_(self, n)
    }
    fn powf(self, n: Sym) -> Sym {
        ComplexField::powf(self, n)
    }
    fn sqrt(self) -> Sym {
        sqrt_(self)
    }
    fn exp(self) -> Sym {
        ComplexField::exp(self)
    }
    fn exp2(self) -> Sym {
        ComplexField::exp2(self)
    }
    fn ln(self) -> Sym {
        ComplexField::ln(self)
    }
    fn log(self, b: Sym) -> Sym {
        ComplexField::log(self, b)
    }
    fn log2(self) -> Sym {
        ComplexField::log2(self)
    }
    fn log10(self) -> Sym {
        ComplexField::log10(self)
    }
    fn max(self, o: Sym) -> Sym {
        minmax(self, o, true)
    }
    fn min(self, o: Sym) -> Sym {
        minmax(self, o, false)
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Signed::abs_sub(&self, &o)
    }
    fn cbrt(self) -> Sym {
        ComplexField::cbrt(self)
    }
    fn hypot(self, o: Sym) -> Sym {
        hypot_(self, o)
    }
    fn sin(self) -> Sym {
        sin_cos_(self).0
    }
    fn cos(self) -> Sym {
        sin_cos_(self).1
    }
    fn tan(self) -> Sym {
        ComplexField::tan(self)
    }
    fn asin(self) -> Sym {
        ComplexField::asin(self)
    }
    fn acos(self) -> Sym {
        ComplexField::acos(self)
    }
    fn atan(self) -> Sym {
        ComplexField::atan(self)
    }
    fn atan2(self, o: Sym) -> Sym {
        atan2_(self, o)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        sin_cos_(self)
    }
    fn exp_m1(self) -> Sym {
        ComplexField::exp_m1(self)
    }
    fn ln_1p(self) -> Sym {
        ComplexField::ln_1p(self)
    }
    fn sinh(self) -> Sym {
        ComplexField::sinh(self)
    }
    fn cosh(self) -> Sym {
        ComplexField::cosh(self)
    }
    fn tanh(self) -> Sym {
        ComplexField::tanh(self)
    }
    fn asinh(self) -> Sym {
        ComplexField::asinh(self)
    }
    fn acosh(self) -> Sym {
        ComplexField::acosh(self)
    }
    fn atanh(self) -> Sym {
        ComplexField::atanh(self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        un("integer_decode")
    }
    fn to_degrees(self) -> Sym {
        to_degrees_(self)
    }
    fn to_radians(self) -> Sym {
        to_radians_(self)
    }
    fn copysign(self, s: Sym) -> Sym {
        copysign_(self, s)
    }
}
#[allow(non_snake_case)]
impl FloatConst for Sym {
    fn E() -> Sym {
        RealField::e()
    }
    fn FRAC_1_PI() -> Sym {
        RealField::frac_1_pi()
    }
    fn FRAC_1_SQRT_2() -> Sym {
        from_f64(std::f64::consts::FRAC_1_SQRT_2)
    }
    fn FRAC_2_PI() -> Sym {
        RealField::frac_2_pi()
    }
    fn FRAC_2_SQRT_PI() -> Sym {
        RealField::frac_2_sqrt_pi()
    }
    fn FRAC_PI_2() -> Sym {
        RealField::frac_pi_2()
    }
    fn FRAC_PI_3() -> Sym {
        RealField::frac_pi_3()
    }
    fn FRAC_PI_4() -> Sym {
        RealField::frac_pi_4()
    }
    fn FRAC_PI_6() -> Sym {
        RealField::frac_pi_6()
    }
    fn FRAC_PI_8() -> Sym {
        RealField::frac_pi_8()
    }
    fn LN_10() -> Sym {
        RealField::ln_10()
    }
    fn LN_2() -> Sym {
        RealField::ln_2()
    }
    fn LOG10_E() -> Sym {
        RealField::log10_e()
    }
    fn LOG2_E() -> Sym {
        RealField::log2_e()
    }
    fn PI() -> Sym {
        pi_()
    }
    fn SQRT_2() -> Sym {
        from_f64(std::f64::consts::SQRT_2)
    }
}
impl mapping_algorithms::types::IsNan for Sym {
    fn is_nan(self) -> bool {
        is_nan(self)
    }
}

// ---- rand: uniform sampling returns a symbolic value of the range, a function of the generator's output
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
pub struct SymSampler {
    lo: Sym,
    hi: Sym,
}
impl UniformSampler for SymSampler {
    type X = Sym;
    fn new<B1: SampleBorrow<Sym> + Sized, B2: SampleBorrow<Sym> + Sized>(a: B1, b: B2) -> Self {
        let (lo, hi) = (*a.borrow(), *b.borrow());
        assert!(lo < hi, "Uniform::new called with `low >= high`");
        SymSampler { lo, hi }
    }
    fn new_inclusive<B1: SampleBorrow<Sym> + Sized, B2: SampleBorrow<Sym> + Sized>(a: B1, b: B2) -> Self {
        let (lo, hi) = (*a.borrow(), *b.borrow());
        assert!(lo <= hi, "Uniform::new_inclusive called with `low > high`");
        SymSampler { lo, hi }
    }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Sym {
        let bits = rng.next_u64();
        let t = with(|c| {
            let key = format!("rand:{bits}");
            if let Some(id) = c.memo.get(&key) {
                return *id;
            }
            let id = c.new_var(Var {
                name: format!("rand_{bits}"),
                sort: Sort::Real,
                lo: Some(Q::zero()),
                hi: Some(Q::one()),
                gran: None,
                def: Def::Free,
            });
            c.memo.insert(key, id);
            id
        });
        let (lo, hi) = (self.lo.poly(), self.hi.poly());
        of_poly(lo.add(&hi.sub(&lo).mul(&Poly::var(t))))
    }
}
impl SampleUniform for Sym {
    type Sampler = SymSampler;
}
