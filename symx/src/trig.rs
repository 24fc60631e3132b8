//! Angle algebra: sines and cosines of linear combinations of angle atoms, atan2.
use crate::ctx::*;
use crate::poly::*;
use crate::solver::Sort;
use crate::sym::*;
use num_traits::{One, Signed, Zero};
use crate::poly::HashMap;

#[derive(Default, Clone)]
pub struct Trig {
    /// v^2 -> polynomial (square roots, and s^2 -> 1 - c^2)
    pub red: HashMap<u32, Poly>,
    pub pi: Option<u32>,
    /// angle monomial -> list of (unit, cos, sin)
    pub atoms: HashMap<Mono, Vec<(Q, Poly, Poly)>>,
}

impl Trig {
    pub fn reduce(&self, p: Poly) -> Poly {
        if self.red.is_empty() {
            return p;
        }
        let mut p = p;
        for _ in 0..64 {
            let needs = p
                .0
                .iter()
                .any(|(m, _)| m.0.iter().any(|(v, e)| *e >= 2 && self.red.contains_key(v)));
            if !needs {
                return p;
            }
            let mut r = Poly::zero();
            for (m, q) in &p.0 {
                let mut t = Poly::konst(q.clone());
                for (v, e) in &m.0 {
                    match self.red.get(v) {
                        Some(d) if *e >= 2 => {
                            for _ in 0..(*e / 2) {
                                t = t.mul(d);
                            }
                            if e % 2 == 1 {
                                t = t.mul(&Poly::var(*v));
                            }
                        }
                        _ => t = t.mul(&Poly(vec![(Mono(vec![(*v, *e)]), Q::one())])),
                    }
                }
                r = r.add(&t);
            }
            p = r;
        }
        p
    }
}

fn red(p: Poly) -> Poly {
    with(|c| c.trig.reduce(p))
}

pub fn pi_poly() -> Poly {
    with(|c| {
        let id = match c.trig.pi {
            Some(id) => id,
            None => {
                let id = c.new_var(Var {
                    name: "PI".into(),
                    sort: Sort::Real,
                    lo: Some(qr(314159265358979, 100000000000000)),
                    hi: Some(qr(314159265358980, 100000000000000)),
                    gran: None,
                    def: Def::Free,
                });
                c.trig.pi = Some(id);
                id
            }
        };
        Poly::var(id)
    })
}

fn one() -> Poly {
    Poly::int(1)
}

/// cos/sin variables for `unit * mono`
fn atom(m: &Mono, unit: &Q) -> (Poly, Poly) {
    if let Some(l) = with(|c| c.trig.atoms.get(m).cloned()) {
        if let Some((_, c, s)) = l.iter().find(|(u, _, _)| u == unit) {
            return (c.clone(), s.clone());
        }
        // double / half of a known unit
        for (u, c, s) in &l {
            if unit == &(u / qi(2)) {
                return half(m, unit, c, s);
            }
        }
    }
    let (c, s) = fresh_pair();
    // range of the angle, as far as it is known
    let (lo, hi) = with(|x| x.poly_interval(&Poly(vec![(m.clone(), unit.clone())])));
    let h = qr(15707963267948967, 10000000000000000); // just above pi/2
    let pi_up = qr(31415926535897933, 10000000000000000);
    let tol = qr(1, 1_000_000_000_000);
    if let (Some(lo), Some(hi)) = (lo, hi) {
        with(|x| {
            let hh = &h + &tol;
            if lo >= -hh.clone() && hi <= hh {
                x.assume(&le0(c.neg()));
            }
            if !lo.is_negative() && hi <= &pi_up + &tol {
                x.assume(&le0(s.neg()));
            }
            if !hi.is_positive() && lo >= -(&pi_up + &tol) {
                x.assume(&le0(s.clone()));
            }
            let q = &h / qi(2) + &tol;
            if lo >= -q.clone() && hi <= q {
                x.assume(&le0(s.sub(&c)));
                x.assume(&le0(s.neg().sub(&c)));
            }
        });
        // sign of the sine follows the sign of the angle when |angle| <= pi
        if lo >= -(&pi_up + &tol) && hi <= &pi_up + &tol {
            let ang = Poly(m.0.iter().filter(|(v, _)| Some(*v) != with(|c| c.trig.pi)).fold(vec![(Mono::one(), unit.clone())], |acc, (v, e)| {
                Poly(acc).mul(&Poly(vec![(Mono(vec![(*v, *e)]), Q::one())])).0
            }));
            with(|x| {
                // angle > 0 -> s >= 0 ; angle < 0 -> s <= 0 ; angle = 0 -> s = 0, c = 1
                x.assume(&Cond::or(vec![le0(ang.clone()), le0(s.neg())]));
                x.assume(&Cond::or(vec![le0(ang.neg()), le0(s.clone())]));
                x.assume(&Cond::or(vec![
                    eq0(ang.clone()).not(),
                    Cond::and(vec![eq0(s.clone()), eq0(c.sub(&one()))]),
                ]));
            });
        }
    }
    register(m, unit, &c, &s);
    (c, s)
}
fn register(m: &Mono, unit: &Q, c: &Poly, s: &Poly) {
    with(|x| {
        x.trig
            .atoms
            .entry(m.clone())
            .or_default()
            .push((unit.clone(), c.clone(), s.clone()))
    });
}
pub fn fresh_pair() -> (Poly, Poly) {
    let c = free_var("cos", Some(qi(-1)), Some(qi(1)), Def::Free);
    let s = free_var("sin", Some(qi(-1)), Some(qi(1)), Def::Free);
    with(|x| {
        let con = eq0(c.mul(&c).add(&s.mul(&s)).sub(&one()));
        x.assume(&con);
        let (cv, sv) = (c.as_var().unwrap(), s.as_var().unwrap());
        let _ = cv;
        x.trig.red.insert(sv, one().sub(&c.mul(&c)));
    });
    (c, s)
}
/// the pair for half the angle whose cosine and sine are (c, s); the angle is within (-pi, pi]
fn half(m: &Mono, unit: &Q, c: &Poly, s: &Poly) -> (Poly, Poly) {
    let (hc, hs) = fresh_pair();
    with(|x| {
        x.assume(&eq0(hc.mul(&hc).scale(&qi(2)).sub(&one()).sub(c)));
        x.assume(&eq0(hc.mul(&hs).scale(&qi(2)).sub(s)));
        x.assume(&le0(hc.neg()));
    });
    register(m, unit, &hc, &hs);
    (hc, hs)
}

/// (cos, sin) of n*alpha
fn multiple(c: &Poly, s: &Poly, n: i64) -> (Poly, Poly) {
    if n < 0 {
        let (a, b) = multiple(c, s, -n);
        return (a, b.neg());
    }
    let (mut rc, mut rs) = (one(), Poly::zero());
    for _ in 0..n {
        let nc = red(rc.mul(c).sub(&rs.mul(s)));
        let ns = red(rs.mul(c).add(&rc.mul(s)));
        rc = nc;
        rs = ns;
    }
    (rc, rs)
}

/// (cos, sin) of the angle given by a polynomial
pub fn cos_sin(p: &Poly) -> (Poly, Poly) {
    let pi = with(|c| c.trig.pi);
    let (mut rc, mut rs) = (one(), Poly::zero());
    for (m, q) in &p.0 {
        let (c, s) = if m.0.is_empty() {
            // a constant angle, natively
            let f = q_to_f64(q);
            (Poly::konst(qf(f.cos())), Poly::konst(qf(f.sin())))
        } else if m.0.len() == 1 && Some(m.0[0].0) == pi && m.0[0].1 == 1 {
            // rational multiple of pi
            let half_turns = q * qi(2);
            if !half_turns.is_integer() {
                let f = q_to_f64(q) * std::f64::consts::PI;
                (Poly::konst(qf(f.cos())), Poly::konst(qf(f.sin())))
            } else {
                let k = ((half_turns % qi(4)) + qi(4)) % qi(4);
                let k: i64 = num_traits::ToPrimitive::to_i64(&k).unwrap();
                match k {
                    0 => (one(), Poly::zero()),
                    1 => (Poly::zero(), one()),
                    2 => (one().neg(), Poly::zero()),
                    _ => (Poly::zero(), one().neg()),
                }
            }
        } else {
            let has_pi = m.0.iter().any(|(v, _)| Some(*v) == pi);
            // preferred base unit
            let mut unit = if has_pi { qr(1, 360) } else { Q::one() };
            let mut tries = 0;
            while !(q / &unit).is_integer() {
                unit = unit / qi(2);
                tries += 1;
                if tries > 3 {
                    unit = q.abs();
                    break;
                }
            }
            if let Some(l) = with(|c| c.trig.atoms.get(m).cloned()) {
                if let Some((u, _, _)) = l.iter().rev().find(|(u, _, _)| (q / u).is_integer()) {
                    unit = u.clone();
                }
            }
            let (c, s) = atom(m, &unit);
            let n = (q / &unit).to_integer();
            let n: i64 = n.try_into().unwrap();
            multiple(&c, &s, n)
        };
        let nc = red(rc.mul(&c).sub(&rs.mul(&s)));
        let ns = red(rs.mul(&c).add(&rc.mul(&s)));
        rc = nc;
        rs = ns;
    }
    (rc, rs)
}

/// atan2 as a fresh angle in (-pi, pi] with known cosine and sine
pub fn atan2(y: Sym, x: Sym) -> Sym {
    let (py, px) = ((*y.poly()).clone(), (*x.poly()).clone());
    let pi = pi_poly();
    if fork(eq0(py.clone())) {
        if fork(lt0(px.clone())) {
            return pi_();
        }
        return Sym(0);
    }
    if px.is_zero() {
        let quarter = pi.scale(&qr(1, 2));
        return of_poly(if fork(lt0(py)) { quarter.neg() } else { quarter });
    }
    let r2 = red(px.mul(&px).add(&py.mul(&py)));
    // py is not zero here
    with(|x| x.assume(&lt0(r2.neg())));
    let r = sqrt_(of_poly(r2)).poly();
    let positive = !fork(lt0(py.clone()));
    let up = qr(31415926535897933, 10000000000000000);
    let id = with(|c| {
        let key = format!("atan2:{py:?}|{px:?}");
        if let Some(id) = c.memo.get(&key) {
            return *id;
        }
        let (lo, hi) = if positive {
            (Q::zero(), up.clone())
        } else {
            (-up.clone(), Q::zero())
        };
        let id = c.new_var(Var {
            name: "atan2".into(),
            sort: Sort::Real,
            lo: Some(lo),
            hi: Some(hi),
            gran: None,
            def: Def::Free,
        });
        c.memo.insert(key, id);
        id
    });
    let th = Poly::var(id);
    let known = with(|c| c.trig.atoms.contains_key(&Mono(vec![(id, 1)])));
    if !known {
        let (c, s) = if let Some(k) = r.as_const() {
            (px.scale(&(Q::one() / &k)), py.scale(&(Q::one() / &k)))
        } else {
            let (c, s) = fresh_pair();
            with(|x| {
                x.assume(&eq0(c.mul(&r).sub(&px)));
                x.assume(&eq0(s.mul(&r).sub(&py)));
            });
            // consequences that are hard to find: multiply by the cosine and the sine
            let along = red(s.mul(&px).sub(&c.mul(&py)));
            let ahead = red(c.mul(&px).add(&s.mul(&py)));
            with(|x| {
                x.assume(&eq0(along));
                x.assume(&eq0(ahead.sub(&r)));
                x.assume(&lt0(r.neg()));
            });
            (c, s)
        };
        with(|x| {
            if positive {
                x.assume(&lt0(th.neg()));
                x.assume(&lt0(th.sub(&pi)));
            } else {
                x.assume(&lt0(th.clone()));
                x.assume(&lt0(th.neg().sub(&pi)));
            }
            // cosine sign against pi/2
            let h = pi.scale(&qr(1, 2));
            let a = if positive { th.clone() } else { th.neg() };
            x.assume(&Cond::or(vec![lt0(px.clone()), le0(a.sub(&h))]));
            x.assume(&Cond::or(vec![le0(px.neg()), le0(h.sub(&a))]));
        });
        register(&Mono(vec![(id, 1)]), &Q::one(), &c, &s);
    }
    of_poly(th)
}
