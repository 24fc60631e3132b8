//! Exact rational polynomials and quantifier-free conditions over them.
use num_bigint::BigInt;
use num_integer::Integer;
pub use num_rational::BigRational as Q;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;
/// the engine itself never draws a hash key: those belong to the code under test
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>;
use std::fmt::Write;
use std::rc::Rc;

pub fn qi(n: i64) -> Q {
    Q::from_integer(BigInt::from(n))
}
pub fn qr(n: i64, d: i64) -> Q {
    Q::new(BigInt::from(n), BigInt::from(d))
}
pub fn qf(x: f64) -> Q {
    Q::from_float(x).expect("finite")
}
/// 2^k as a rational
pub fn q2(k: i32) -> Q {
    if k >= 0 {
        Q::from_integer(BigInt::one() << k as usize)
    } else {
        Q::new(BigInt::one(), BigInt::one() << (-k) as usize)
    }
}
pub fn q_to_f64(q: &Q) -> f64 {
    q.to_f64().unwrap_or(f64::NAN)
}
/// largest k such that q is a multiple of 2^k, if q is dyadic
pub fn gran_of(q: &Q) -> Option<i32> {
    if q.is_zero() {
        return Some(1000);
    }
    let d = q.denom();
    let dz = d.trailing_zeros().unwrap_or(0);
    if (d >> dz as usize).is_one() {
        let nz = q.numer().trailing_zeros().unwrap_or(0);
        Some(nz as i32 - dz as i32)
    } else {
        None
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mono(pub Vec<(u32, u32)>);
impl Mono {
    pub fn one() -> Self {
        Mono(Vec::new())
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push(b[j]);
                j += 1;
            } else {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1;
            }
        }
        Mono(r)
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|x| x.1).sum()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Poly(pub Vec<(Mono, Q)>);

impl Poly {
    pub fn zero() -> Self {
        Poly(vec![])
    }
    pub fn konst(q: Q) -> Self {
        if q.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(Mono::one(), q)])
        }
    }
    pub fn int(n: i64) -> Self {
        Self::konst(qi(n))
    }
    pub fn var(v: u32) -> Self {
        Poly(vec![(Mono(vec![(v, 1)]), Q::one())])
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.0.len() {
            0 => Some(Q::zero()),
            1 if self.0[0].0 .0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    /// quotient by a monomial that divides every term
    pub fn div_mono(&self, d: &Mono) -> Option<Poly> {
        let mut out = vec![];
        for (m, q) in &self.0 {
            let mut r = vec![];
            let mut left = d.0.clone();
            for (v, e) in &m.0 {
                let k = left.iter().position(|x| x.0 == *v).map_or(0, |i| left.swap_remove(i).1);
                if k > *e {
                    return None;
                }
                if e > &k {
                    r.push((*v, e - k));
                }
            }
            if !left.is_empty() {
                return None;
            }
            out.push(Poly(vec![(Mono(r), q.clone())]));
        }
        Some(out.into_iter().fold(Poly::zero(), |a, b| a.add(&b)))
    }
    pub fn as_var(&self) -> Option<u32> {
        match &self.0[..] {
            [(m, q)] if q.is_one() && m.0.len() == 1 && m.0[0].1 == 1 => Some(m.0[0].0),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.lin(o, &Q::one())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.lin(o, &-Q::one())
    }
    /// self + k*o
    pub fn lin(&self, o: &Poly, k: &Q) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i].clone());
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push((b[j].0.clone(), &b[j].1 * k));
                j += 1;
            } else {
                let s = &a[i].1 + &b[j].1 * k;
                if !s.is_zero() {
                    r.push((a[i].0.clone(), s));
                }
                i += 1;
                j += 1;
            }
        }
        Poly(r)
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, q)| (m.clone(), q * k)).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(&-Q::one())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(k) = self.as_const() {
            return o.scale(&k);
        }
        if let Some(k) = o.as_const() {
            return self.scale(&k);
        }
        let mut m: BTreeMap<Mono, Q> = BTreeMap::new();
        for (ma, qa) in &self.0 {
            for (mb, qb) in &o.0 {
                let e = m.entry(ma.mul(mb)).or_insert_with(Q::zero);
                *e += qa * qb;
            }
        }
        Poly(m.into_iter().filter(|(_, q)| !q.is_zero()).collect())
    }
    pub fn vars(&self, out: &mut Vec<u32>) {
        for (m, _) in &self.0 {
            for (v, _) in &m.0 {
                out.push(*v);
            }
        }
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|(m, _)| m.degree()).max().unwrap_or(0)
    }
    pub fn eval(&self, env: &HashMap<u32, Q>) -> Option<Q> {
        let mut s = Q::zero();
        for (m, q) in &self.0 {
            let mut t = q.clone();
            for (v, e) in &m.0 {
                let x = env.get(v)?;
                for _ in 0..*e {
                    t *= x;
                }
            }
            s += t;
        }
        Some(s)
    }
    /// substitute variables by polynomials
    pub fn subst(&self, f: &dyn Fn(u32) -> Option<Poly>) -> Poly {
        let mut s = Poly::zero();
        for (m, q) in &self.0 {
            let mut t = Poly::konst(q.clone());
            for (v, e) in &m.0 {
                let p = f(*v).unwrap_or_else(|| Poly::var(*v));
                for _ in 0..*e {
                    t = t.mul(&p);
                }
            }
            s = s.add(&t);
        }
        s
    }
    /// scale by a positive rational so that coefficients are coprime integers
    pub fn primitive(&self) -> Poly {
        if self.0.is_empty() {
            return self.clone();
        }
        let mut l = BigInt::one();
        for (_, q) in &self.0 {
            l = l.lcm(q.denom());
        }
        let mut g = BigInt::zero();
        for (_, q) in &self.0 {
            g = g.gcd(&(q.numer() * (&l / q.denom())));
        }
        if g.is_zero() {
            return self.clone();
        }
        let k = Q::new(l, g);
        if k.is_one() {
            self.clone()
        } else {
            self.scale(&k)
        }
    }
    pub fn smt(&self, s: &mut String) {
        if self.0.is_empty() {
            s.push_str("0");
            return;
        }
        if self.0.len() > 1 {
            s.push_str("(+");
        }
        for (m, q) in &self.0 {
            if self.0.len() > 1 {
                s.push(' ');
            }
            let parts = (if q.is_one() { 0 } else { 1 }) + m.degree();
            if parts == 0 {
                s.push_str("1");
            } else {
                if parts > 1 {
                    s.push_str("(*");
                }
                if !q.is_one() {
                    if parts > 1 {
                        s.push(' ');
                    }
                    smt_q(q, s);
                }
                for (v, e) in &m.0 {
                    for _ in 0..*e {
                        if parts > 1 {
                            s.push(' ');
                        }
                        let _ = write!(s, "v{v}");
                    }
                }
                if parts > 1 {
                    s.push(')');
                }
            }
        }
        if self.0.len() > 1 {
            s.push(')');
        }
    }
}

pub fn smt_q(q: &Q, s: &mut String) {
    let neg = q.is_negative();
    let a = q.abs();
    if neg {
        s.push_str("(- ");
    }
    if a.is_integer() {
        let _ = write!(s, "{}", a.numer());
    } else {
        let _ = write!(s, "(/ {} {})", a.numer(), a.denom());
    }
    if neg {
        s.push(')');
    }
}

/// Negation-normal-form condition. Atoms compare a polynomial with zero.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cond {
    T,
    F,
    Lt(Rc<Poly>),
    Le(Rc<Poly>),
    Eq(Rc<Poly>),
    Ne(Rc<Poly>),
    And(Rc<Vec<Cond>>),
    Or(Rc<Vec<Cond>>),
}

impl Cond {
    pub fn konst(b: bool) -> Cond {
        if b {
            Cond::T
        } else {
            Cond::F
        }
    }
    pub fn not(&self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Lt(p) => Cond::Le(Rc::new(p.neg())),
            Cond::Le(p) => Cond::Lt(Rc::new(p.neg())),
            Cond::Eq(p) => Cond::Ne(p.clone()),
            Cond::Ne(p) => Cond::Eq(p.clone()),
            Cond::And(v) => Cond::Or(Rc::new(v.iter().map(|c| c.not()).collect())),
            Cond::Or(v) => Cond::And(Rc::new(v.iter().map(|c| c.not()).collect())),
        }
    }
    pub fn and(v: Vec<Cond>) -> Cond {
        let mut r: Vec<Cond> = vec![];
        for c in v {
            match c {
                Cond::T => {}
                Cond::F => return Cond::F,
                Cond::And(w) => r.extend(w.iter().cloned()),
                c => r.push(c),
            }
        }
        r.sort();
        r.dedup();
        match r.len() {
            0 => Cond::T,
            1 => r.pop().unwrap(),
            _ => Cond::And(Rc::new(r)),
        }
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        let mut r: Vec<Cond> = vec![];
        for c in v {
            match c {
                Cond::F => {}
                Cond::T => return Cond::T,
                Cond::Or(w) => r.extend(w.iter().cloned()),
                c => r.push(c),
            }
        }
        r.sort();
        r.dedup();
        match r.len() {
            0 => Cond::F,
            1 => r.pop().unwrap(),
            _ => Cond::Or(Rc::new(r)),
        }
    }
    pub fn vars(&self, out: &mut Vec<u32>) {
        match self {
            Cond::T | Cond::F => {}
            Cond::Lt(p) | Cond::Le(p) | Cond::Eq(p) | Cond::Ne(p) => p.vars(out),
            Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| c.vars(out)),
        }
    }
    pub fn eval(&self, env: &HashMap<u32, Q>) -> Option<bool> {
        Some(match self {
            Cond::T => true,
            Cond::F => false,
            Cond::Lt(p) => p.eval(env)?.is_negative(),
            Cond::Le(p) => !p.eval(env)?.is_positive(),
            Cond::Eq(p) => p.eval(env)?.is_zero(),
            Cond::Ne(p) => !p.eval(env)?.is_zero(),
            Cond::And(v) => {
                let mut unk = false;
                for c in v.iter() {
                    match c.eval(env) {
                        Some(false) => return Some(false),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    return None;
                }
                true
            }
            Cond::Or(v) => {
                let mut unk = false;
                for c in v.iter() {
                    match c.eval(env) {
                        Some(true) => return Some(true),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    return None;
                }
                false
            }
        })
    }
    pub fn degree(&self) -> u32 {
        match self {
            Cond::T | Cond::F => 0,
            Cond::Lt(p) | Cond::Le(p) | Cond::Eq(p) | Cond::Ne(p) => p.degree(),
            Cond::And(v) | Cond::Or(v) => v.iter().map(|c| c.degree()).max().unwrap_or(0),
        }
    }
    pub fn smt(&self, s: &mut String) {
        match self {
            Cond::T => s.push_str("true"),
            Cond::F => s.push_str("false"),
            Cond::Lt(p) => {
                s.push_str("(< ");
                p.smt(s);
                s.push_str(" 0)");
            }
            Cond::Le(p) => {
                s.push_str("(<= ");
                p.smt(s);
                s.push_str(" 0)");
            }
            Cond::Eq(p) => {
                s.push_str("(= ");
                p.smt(s);
                s.push_str(" 0)");
            }
            Cond::Ne(p) => {
                s.push_str("(not (= ");
                p.smt(s);
                s.push_str(" 0))");
            }
            Cond::And(v) | Cond::Or(v) => {
                s.push_str(if matches!(self, Cond::And(_)) {
                    "(and"
                } else {
                    "(or"
                });
                for c in v.iter() {
                    s.push(' ');
                    c.smt(s);
                }
                s.push(')');
            }
        }
    }
    pub fn subst(&self, f: &dyn Fn(u32) -> Option<Poly>) -> Cond {
        match self {
            Cond::T | Cond::F => self.clone(),
            Cond::Lt(p) => lt0(p.subst(f)),
            Cond::Le(p) => le0(p.subst(f)),
            Cond::Eq(p) => eq0(p.subst(f)),
            Cond::Ne(p) => eq0(p.subst(f)).not(),
            Cond::And(v) => Cond::and(v.iter().map(|c| c.subst(f)).collect()),
            Cond::Or(v) => Cond::or(v.iter().map(|c| c.subst(f)).collect()),
        }
    }
}

pub fn lt0(p: Poly) -> Cond {
    match p.as_const() {
        Some(q) => Cond::konst(q.is_negative()),
        None => Cond::Lt(Rc::new(p.primitive())),
    }
}
pub fn le0(p: Poly) -> Cond {
    match p.as_const() {
        Some(q) => Cond::konst(!q.is_positive()),
        None => Cond::Le(Rc::new(p.primitive())),
    }
}
pub fn eq0(p: Poly) -> Cond {
    match p.as_const() {
        Some(q) => Cond::konst(q.is_zero()),
        None => {
            let p = p.primitive();
            let p = if p.0[0].1.is_negative() { p.neg() } else { p };
            Cond::Eq(Rc::new(p))
        }
    }
}
