//! One harness source, two interpretations: symbolic (Sym) and native replay (f32 / f64).
use crate::ck::*;
use crate::ctx::*;
use crate::poly::*;
use crate::solver::Sort;
use crate::sym::{self, with, Sym};
use mapping_algorithms::types::IsNan;
use num_traits::{AsPrimitive, Bounded, Float, Signed};
use rand::distributions::uniform::SampleUniform;
use simba::scalar::{ComplexField, RealField};
use crate::poly::HashMap;
use std::fmt::Debug;

pub trait Scal:
    Copy
    + Default
    + Debug
    + RealField
    + Float
    + Bounded
    + IsNan
    + std::iter::Sum
    + AsPrimitive<isize>
    + AsPrimitive<usize>
    + AsPrimitive<i64>
    + AsPrimitive<i32>
    + AsPrimitive<u32>
    + AsPrimitive<Self>
    + SampleUniform
    + 'static
{
    fn of_q(q: &Q) -> Self;
}
impl Scal for Sym {
    fn of_q(q: &Q) -> Sym {
        sym::konst(q.clone())
    }
}
impl Scal for f64 {
    fn of_q(q: &Q) -> f64 {
        q_to_f64(q)
    }
}
impl Scal for crate::nf::Nf {
    fn of_q(q: &Q) -> Self {
        crate::nf::Nf(q_to_f64(q))
    }
}
impl Scal for f32 {
    fn of_q(q: &Q) -> f32 {
        num_traits::ToPrimitive::to_f32(q).unwrap()
    }
}

pub trait BoolN: Clone {
    fn k(b: bool) -> Self;
    fn not(&self) -> Self;
    fn all(v: Vec<Self>) -> Self;
    fn any(v: Vec<Self>) -> Self;
    fn and(&self, o: &Self) -> Self {
        Self::all(vec![self.clone(), o.clone()])
    }
    fn or(&self, o: &Self) -> Self {
        Self::any(vec![self.clone(), o.clone()])
    }
    fn implies(&self, o: &Self) -> Self {
        self.not().or(o)
    }
    fn iff(&self, o: &Self) -> Self {
        self.implies(o).and(&o.implies(self))
    }
}
impl BoolN for bool {
    fn k(b: bool) -> bool {
        b
    }
    fn not(&self) -> bool {
        !*self
    }
    fn all(v: Vec<bool>) -> bool {
        v.into_iter().all(|x| x)
    }
    fn any(v: Vec<bool>) -> bool {
        v.into_iter().any(|x| x)
    }
}
impl BoolN for Cond {
    fn k(b: bool) -> Cond {
        Cond::konst(b)
    }
    fn not(&self) -> Cond {
        Cond::not(self)
    }
    fn all(v: Vec<Cond>) -> Cond {
        Cond::and(v)
    }
    fn any(v: Vec<Cond>) -> Cond {
        Cond::or(v)
    }
}

/// exact oracle numbers
pub trait QNum: Clone + 'static {
    type B: BoolN;
    fn k(q: Q) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn scale(&self, q: &Q) -> Self {
        self.mul(&Self::k(q.clone()))
    }
    fn lt(&self, o: &Self) -> Self::B;
    fn le(&self, o: &Self) -> Self::B {
        o.lt(self).not()
    }
    fn eq(&self, o: &Self) -> Self::B;
    fn ne(&self, o: &Self) -> Self::B {
        self.eq(o).not()
    }
    fn int(n: i64) -> Self {
        Self::k(qi(n))
    }
    fn zero() -> Self {
        Self::k(qi(0))
    }
    /// |self - o| <= tol
    fn near(&self, o: &Self, tol: &Q) -> Self::B {
        let d = self.sub(o);
        d.le(&Self::k(tol.clone())).and(&Self::k(-tol.clone()).le(&d))
    }
    fn concrete(&self) -> Option<Q>;
}
impl QNum for Q {
    type B = bool;
    fn k(q: Q) -> Q {
        q
    }
    fn add(&self, o: &Q) -> Q {
        self + o
    }
    fn sub(&self, o: &Q) -> Q {
        self - o
    }
    fn mul(&self, o: &Q) -> Q {
        self * o
    }
    fn lt(&self, o: &Q) -> bool {
        self < o
    }
    fn eq(&self, o: &Q) -> bool {
        self == o
    }
    fn concrete(&self) -> Option<Q> {
        Some(self.clone())
    }
}
impl QNum for Poly {
    type B = Cond;
    fn k(q: Q) -> Poly {
        Poly::konst(q)
    }
    fn add(&self, o: &Poly) -> Poly {
        Poly::add(self, o)
    }
    fn sub(&self, o: &Poly) -> Poly {
        Poly::sub(self, o)
    }
    fn mul(&self, o: &Poly) -> Poly {
        with(|c| c.trig.reduce(Poly::mul(self, o)))
    }
    fn lt(&self, o: &Poly) -> Cond {
        lt0(self.sub(o))
    }
    fn eq(&self, o: &Poly) -> Cond {
        eq0(self.sub(o))
    }
    fn concrete(&self) -> Option<Q> {
        self.as_const()
    }
}

thread_local! {
    /// decides the hash keys of maps made by the code under test in this thread
    pub static HASH_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// the standard library draws its hash keys here
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.with(|s| s.get()).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF0;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub lo: Q,
    pub hi: Q,
    /// inputs are multiples of 2^gran
    pub gran: i32,
    pub int: bool,
}
pub fn grid(b: i64, gran: i32) -> Spec {
    Spec { lo: qi(-b), hi: qi(b), gran, int: false }
}
pub fn range(lo: i64, hi: i64, gran: i32) -> Spec {
    Spec { lo: qi(lo), hi: qi(hi), gran, int: false }
}
pub fn ints(lo: i64, hi: i64) -> Spec {
    Spec { lo: qi(lo), hi: qi(hi), gran: 0, int: true }
}

pub trait Env {
    type S: Scal;
    type B: BoolN;
    type Q: QNum<B = Self::B>;
    type U8: IntScal<Self::S>;
    type I8: IntScal<Self::S>;
    type U16: IntScal<Self::S>;
    type I32: IntScal<Self::S>;
    const SYM: bool;
    fn input(&mut self, name: &str, spec: &Spec) -> Self::S;
    /// NaN (code 1), +inf (2), -inf (3) or an ordinary input (0)
    fn input_special(&mut self, name: &str, spec: &Spec, specials: usize) -> Self::S {
        match self.choose(&format!("{name}.kind"), 1 + specials) {
            0 => self.input(name, spec),
            1 => Float::nan(),
            2 => Float::infinity(),
            _ => Float::neg_infinity(),
        }
    }
    fn choose(&mut self, name: &str, n: usize) -> usize;
    /// nondeterministic hash keys for the maps of the code under test (needs `fresh`)
    fn hash_keys(&mut self, n: usize) {
        let k = self.choose("hash keys", n);
        HASH_SEED.with(|s| s.set(k as u64 + 1));
    }
    fn param(&self, name: &str) -> i64;
    fn q(&mut self, s: Self::S) -> Self::Q;
    fn is_finite(&mut self, s: Self::S) -> bool;
    fn assume(&mut self, b: Self::B);
    fn require(&mut self, name: &str, b: Self::B);
    fn cover(&mut self, name: &str);
    /// fork on a condition (symbolic) or just evaluate it
    fn decide(&mut self, b: &Self::B) -> bool;
    /// tolerance for values that are rounded natively and exact symbolically
    fn tol(&self, scale: f64) -> Q;
    /// cosine and sine of an angle
    fn cos_sin(&mut self, s: Self::S) -> (Self::Q, Self::Q);
    /// cosine and sine of an angle in degrees divided by `n`
    fn cos_sin_degrees(&mut self, s: Self::S, n: i64) -> (Self::Q, Self::Q);
    fn pi(&mut self) -> Self::Q;
    /// four numbers whose squares sum to one
    fn unit4(&mut self, name: &str) -> [Self::S; 4];
}

// ------------------------------------------------------------------ symbolic
pub struct SymEnv {
    pub params: HashMap<String, i64>,
}
impl Env for SymEnv {
    type S = Sym;
    type B = Cond;
    type Q = Poly;
    type U8 = U8s;
    type I8 = I8s;
    type U16 = U16s;
    type I32 = I32s;
    const SYM: bool = true;
    fn input(&mut self, name: &str, spec: &Spec) -> Sym {
        with(|c| {
            let id = c.new_var(Var {
                name: name.to_string(),
                sort: if spec.int { Sort::Int } else { Sort::Real },
                lo: Some(spec.lo.clone()),
                hi: Some(spec.hi.clone()),
                gran: Some(spec.gran),
                def: Def::Input,
            });
            Sym(c.push_node(Node {
                v: V::Fin(std::rc::Rc::new(Poly::var(id))),
                lo: Some(spec.lo.clone()),
                hi: Some(spec.hi.clone()),
                gran: Some(spec.gran),
            }))
        })
    }
    fn choose(&mut self, _name: &str, n: usize) -> usize {
        with(|c| c.choose(n))
    }
    fn param(&self, name: &str) -> i64 {
        self.params.get(name).copied().unwrap_or(0)
    }
    fn q(&mut self, s: Sym) -> Poly {
        (*s.poly()).clone()
    }
    fn is_finite(&mut self, s: Sym) -> bool {
        s.finite()
    }
    fn assume(&mut self, b: Cond) {
        with(|c| c.assume(&b))
    }
    fn require(&mut self, name: &str, b: Cond) {
        with(|c| c.requires.push((name.to_string(), b)))
    }
    fn cover(&mut self, name: &str) {
        with(|c| {
            c.covers.insert(name.to_string());
        })
    }
    fn decide(&mut self, b: &Cond) -> bool {
        sym::fork(b.clone())
    }
    fn tol(&self, scale: f64) -> Q {
        // only rounding-error variables make a symbolic value inexact
        let err = with(|c| c.opts.err);
        match err {
            None => qi(0),
            Some(k) => qf(scale) * q2(-k) * qi(64),
        }
    }
    fn cos_sin(&mut self, s: Sym) -> (Poly, Poly) {
        crate::trig::cos_sin(&s.poly())
    }
    fn cos_sin_degrees(&mut self, s: Sym, n: i64) -> (Poly, Poly) {
        let pi = crate::trig::pi_poly();
        crate::trig::cos_sin(&s.poly().mul(&pi).scale(&qr(1, 180 * n)))
    }
    fn pi(&mut self) -> Poly {
        crate::trig::pi_poly()
    }
    fn unit4(&mut self, name: &str) -> [Sym; 4] {
        let spec = Spec { lo: qi(-1), hi: qi(1), gran: -1000, int: false };
        let s: [Sym; 4] = std::array::from_fn(|k| self.input(&format!("{name}.{k}"), &spec));
        let p: Vec<Poly> = s.iter().map(|x| (*x.poly()).clone()).collect();
        with(|c| {
            // start from the identity rather than from zero
            let rest = Poly::int(1).sub(&p[1].mul(&p[1])).sub(&p[2].mul(&p[2])).sub(&p[3].mul(&p[3]));
            c.assume(&eq0(p[0].mul(&p[0]).sub(&rest)));
            c.trig.red.insert(p[0].as_var().unwrap(), rest);
        });
        s
    }
}

// ------------------------------------------------------------------ native
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub property: String,
    pub harness: String,
    pub params: Vec<(String, i64)>,
    pub vals: HashMap<String, Q>,
    pub choices: Vec<usize>,
}
impl Case {
    pub fn write(&self) -> String {
        let mut s = format!("property {}\nharness {}\n", self.property, self.harness);
        for (k, v) in &self.params {
            s += &format!("param {k} {v}\n");
        }
        s += &format!(
            "choices {}\n",
            self.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
        );
        let mut v: Vec<_> = self.vals.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        for (k, q) in v {
            s += &format!("in {k} {}/{}   # {}\n", q.numer(), q.denom(), q_to_f64(q));
        }
        s
    }
    pub fn read(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("property") => c.property = w[1].into(),
                Some("harness") => c.harness = w[1].into(),
                Some("param") => c.params.push((w[1].into(), w[2].parse().unwrap())),
                Some("choices") => c.choices = w[1..].iter().map(|x| x.parse().unwrap()).collect(),
                Some("in") => {
                    c.vals.insert(w[1].into(), crate::solver::parse_q(w[2]).unwrap());
                }
                _ => {}
            }
        }
        c
    }
}

pub enum NatAbort {
    Invalid(String),
}

pub struct NatEnv<T> {
    pub case: Case,
    pub pos: usize,
    pub failed: Vec<String>,
    pub checked: usize,
    pub log: Vec<String>,
    /// exact values actually used
    pub used: Vec<(String, Q)>,
    pub _t: std::marker::PhantomData<T>,
}
impl<T> NatEnv<T> {
    pub fn new(case: Case) -> Self {
        NatEnv { case, pos: 0, failed: vec![], checked: 0, log: vec![], used: vec![], _t: Default::default() }
    }
}
pub trait NatScal: Scal {
    const NAME: &'static str;
    const EPS: f64;
    fn exact(self) -> Option<Q>;
    fn f64(self) -> f64;
}
impl NatScal for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn exact(self) -> Option<Q> {
        Q::from_float(self)
    }
    fn f64(self) -> f64 {
        self
    }
}
impl NatScal for crate::nf::Nf {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn exact(self) -> Option<Q> {
        Q::from_float(self.0)
    }
    fn f64(self) -> f64 {
        self.0
    }
}
impl NatScal for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn exact(self) -> Option<Q> {
        Q::from_float(self)
    }
    fn f64(self) -> f64 {
        self as f64
    }
}
impl<T: NatScal> Env for NatEnv<T>
where
    u8: IntScal<T>,
    i8: IntScal<T>,
    u16: IntScal<T>,
    i32: IntScal<T>,
{
    type S = T;
    type B = bool;
    type Q = Q;
    type U8 = u8;
    type I8 = i8;
    type U16 = u16;
    type I32 = i32;
    const SYM: bool = false;
    fn input(&mut self, name: &str, spec: &Spec) -> T {
        let q = self.case.vals.get(name).cloned().unwrap_or_else(|| {
            if spec.lo.is_positive() {
                spec.lo.clone()
            } else if spec.hi.is_negative() {
                spec.hi.clone()
            } else {
                qi(0)
            }
        });
        let t = T::of_q(&q);
        let e = t.exact().unwrap();
        if e < spec.lo || e > spec.hi || (spec.int && !e.is_integer()) {
            std::panic::resume_unwind(Box::new(NatAbort::Invalid(format!("{name} out of range"))));
        }
        self.log.push(format!("{name} = {:?}", t));
        self.used.push((name.to_string(), e));
        t
    }
    fn choose(&mut self, name: &str, n: usize) -> usize {
        let k = self.case.choices.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        self.log.push(format!("{name} := {k}"));
        k.min(n.saturating_sub(1))
    }
    fn param(&self, name: &str) -> i64 {
        self.case.params.iter().find(|p| p.0 == name).map(|p| p.1).unwrap_or(0)
    }
    fn q(&mut self, s: T) -> Q {
        match s.exact() {
            Some(q) => q,
            None => {
                self.failed.push("a value is not finite".into());
                std::panic::resume_unwind(Box::new(NatAbort::Invalid("non-finite".into())))
            }
        }
    }
    fn is_finite(&mut self, s: T) -> bool {
        Float::is_finite(s)
    }
    fn assume(&mut self, b: bool) {
        if !b && self.failed.is_empty() {
            std::panic::resume_unwind(Box::new(NatAbort::Invalid("assumption".into())));
        }
    }
    fn require(&mut self, name: &str, b: bool) {
        self.checked += 1;
        if !b {
            self.failed.push(name.to_string());
        }
    }
    fn cover(&mut self, _: &str) {}
    fn decide(&mut self, b: &bool) -> bool {
        *b
    }
    fn tol(&self, scale: f64) -> Q {
        qf(scale * T::EPS * 64.0)
    }
    fn cos_sin(&mut self, s: T) -> (Q, Q) {
        let f = s.f64();
        (qf(f.cos()), qf(f.sin()))
    }
    fn cos_sin_degrees(&mut self, s: T, n: i64) -> (Q, Q) {
        let f = s.f64().to_radians() / n as f64;
        (qf(f.cos()), qf(f.sin()))
    }
    fn pi(&mut self) -> Q {
        qf(std::f64::consts::PI)
    }
    fn unit4(&mut self, name: &str) -> [T; 4] {
        let spec = Spec { lo: qi(-1), hi: qi(1), gran: -1000, int: false };
        let s: [T; 4] = std::array::from_fn(|k| self.input(&format!("{name}.{k}"), &spec));
        let n = ComplexField::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
        if n == T::of_q(&qi(0)) {
            return [T::of_q(&qi(1)), n, n, n];
        }
        s.map(|x| x / n)
    }
}
