//! Geographical functions: angles are degrees on the way in and radians on the way out.
use super::*;
use mapping_algorithms::geo::{calculate_haversine_distance, calculate_sphere_bearing};
use nalgebra::Point2;

/// latitude and longitude
fn place<E: Env>(e: &mut E, name: &str) -> Point2<E::S> {
    let lat = e.input(&format!("{name}.lat"), &grid(90, -16));
    let lon = e.input(&format!("{name}.lon"), &grid(180, -16));
    Point2::new(lat, lon)
}
/// (cos, sin) of half of an angle given in degrees
fn half<E: Env>(e: &mut E, deg: E::S) -> (E::Q, E::Q) {
    e.cos_sin_degrees(deg, 2)
}
fn double<Q: QNum>(h: &(Q, Q)) -> (Q, Q) {
    turn(h, h)
}
/// sum of two angles
fn turn<Q: QNum>(a: &(Q, Q), b: &(Q, Q)) -> (Q, Q) {
    (a.0.mul(&b.0).sub(&a.1.mul(&b.1)), a.1.mul(&b.0).add(&a.0.mul(&b.1)))
}
fn neg<Q: QNum>(a: &(Q, Q)) -> (Q, Q) {
    (a.0.clone(), Q::zero().sub(&a.1))
}
fn sq<Q: QNum>(a: &Q) -> Q {
    a.mul(a)
}
struct Pair<Q> {
    /// half angles
    lat: [(Q, Q); 2],
    lon: [(Q, Q); 2],
}
impl<Q: QNum> Pair<Q> {
    fn new<E: Env<Q = Q>>(e: &mut E, a: &Point2<E::S>, b: &Point2<E::S>) -> Self {
        Pair { lat: [half(e, a.x), half(e, b.x)], lon: [half(e, a.y), half(e, b.y)] }
    }
    fn vector(&self, k: usize) -> [Q; 3] {
        let (c, s) = double(&self.lat[k]);
        let (lc, ls) = double(&self.lon[k]);
        [c.mul(&lc), c.mul(&ls), s]
    }
    /// the cosine of the central angle
    fn dot(&self) -> Q {
        let (a, b) = (self.vector(0), self.vector(1));
        sum((0..3).map(|k| a[k].mul(&b[k])))
    }
    fn half_chord2(&self) -> Q {
        let d = turn(&self.lat[1], &neg(&self.lat[0]));
        let l = turn(&self.lon[1], &neg(&self.lon[0]));
        let c = double(&self.lat[0]).0.mul(&double(&self.lat[1]).0);
        sq(&d.1).add(&c.mul(&sq(&l.1)))
    }
    /// Facts of real arithmetic the solver need not rediscover. With c = cos(lat1) cos(lat2) >= 0,
    /// the squared half chord is sin²((lat2-lat1)/2) + c sin²((lon2-lon1)/2), and its complement is
    /// sin²((lat2+lat1)/2) + c cos²((lon2-lon1)/2); both are sums of non-negative numbers.
    fn lemmas<E: Env<Q = Q, B = Q::B>>(&self, e: &mut E) {
        let d = turn(&self.lat[1], &neg(&self.lat[0]));
        let s = turn(&self.lat[1], &self.lat[0]);
        let l = turn(&self.lon[1], &neg(&self.lon[0]));
        let c = double(&self.lat[0]).0.mul(&double(&self.lat[1]).0);
        let h = sq(&d.1).add(&c.mul(&sq(&l.1)));
        let r = sq(&s.1).add(&c.mul(&sq(&l.0)));
        if E::SYM {
            // nothing is assumed unless the two sum to one, identically
            let one = h.add(&r).sub(&Q::int(1)).concrete();
            assert_eq!(one, Some(qi(0)));
            let dot = self.dot().sub(&Q::int(1)).add(&h.scale(&qi(2))).concrete();
            assert_eq!(dot, Some(qi(0)));
            e.assume(Q::zero().le(&h));
            e.assume(Q::zero().le(&r));
        }
    }
}
fn unit<E: Env>() -> E::S {
    E::S::of_q(&qi(1))
}

/// C25
fn distance<E: Env>(e: &mut E) {
    let a = place(e, "a");
    let b = if e.param("same") == 1 { a } else { place(e, "b") };
    let p = Pair::new(e, &a, &b);
    p.lemmas(e);
    let d = calculate_haversine_distance(a, b, unit::<E>());
    let ok = e.is_finite(d);
    e.require("the distance is a number", E::B::k(ok));
    if !ok {
        return;
    }
    e.cover("a number");
    let q = e.q(d);
    let pi = e.pi();
    let tol = e.tol(8.0);
    let slack = E::Q::k(tol.clone());
    e.require("not negative", E::Q::zero().le(&q));
    e.require("at most half the circumference", q.le(&pi.add(&slack)));
    let (c, _) = e.cos_sin(d);
    e.require("the great-circle distance", c.near(&p.dot(), &tol));
    // the half chord, which tells short distances apart
    let halved = E::S::of_q(&qr(1, 2)) * d;
    let (_, s) = e.cos_sin(halved);
    let h = p.half_chord2();
    // rounded cosines close to the poles cost an absolute error of that size
    let eps = e.tol(1.0);
    let allow = if E::SYM { E::Q::zero() } else { h.scale(&qr(1, 1000)).add(&E::Q::k(&eps * &eps * qi(16))) };
    let diff = sq(&s).sub(&h);
    e.require("the great-circle distance, relatively", diff.le(&allow).and(&E::Q::zero().sub(&diff).le(&allow)));
    if e.param("same") == 1 {
        e.require("zero for identical points", q.eq(&E::Q::zero()));
    }
    if e.param("sym") == 1 {
        let d2 = calculate_haversine_distance(b, a, unit::<E>());
        let (q2, fin) = (d2, e.is_finite(d2));
        e.require("the distance is a number", E::B::k(fin));
        if fin {
            let q2 = e.q(q2);
            let (c2, _) = e.cos_sin(d2);
            // near the antipode the distance itself is ill-conditioned
            let loose = if E::SYM { qi(0) } else { qr(1, 256) };
            e.require("symmetric", q2.near(&q, &loose).and(&c2.near(&c, &tol)));
        }
    }
    if e.param("scale") == 1 {
        let r = e.input("radius", &Spec { lo: qr(1, 1024), hi: qi(1 << 24), gran: -10, int: false });
        let qr_ = e.q(r);
        let d3 = calculate_haversine_distance(a, b, r);
        let d3 = e.q(d3);
        let t = qr_.scale(&e.tol(4.0));
        let diff = d3.sub(&q.mul(&qr_));
        e.require("scales with the radius", diff.le(&t).and(&E::Q::zero().sub(&diff).le(&t)));
    }
}
/// C25 with rounding: never NaN, in particular around antipodes and coincident points
fn number<E: Env>(e: &mut E) {
    let a = place(e, "a");
    let b = match e.param("at") {
        // the antipode
        0 => {
            let half_turn = E::S::of_q(&qi(180));
            let back = e.q(a.y);
            let east = back.lt(&E::Q::zero());
            let lon = if e.decide(&east) { a.y + half_turn } else { a.y - half_turn };
            Point2::new(-a.x, lon)
        }
        1 => a,
        _ => place(e, "b"),
    };
    let d = calculate_haversine_distance(a, b, unit::<E>());
    let ok = e.is_finite(d);
    e.require("the distance is a number", E::B::k(ok));
    if ok {
        e.cover("a number");
        let q = e.q(d);
        let pi = e.pi();
        let slack = E::Q::k(e.tol(8.0));
        e.require("not negative", E::Q::zero().le(&q));
        e.require("at most half the circumference", q.le(&pi.add(&slack)));
    }
}

/// C26
fn bearing<E: Env>(e: &mut E) {
    let a = place(e, "a");
    let b = match e.param("at") {
        1 => a,
        2 => {
            // due north or south
            let lat = e.input("b.lat", &grid(90, -16));
            Point2::new(lat, a.y)
        }
        _ => place(e, "b"),
    };
    let p = Pair::new(e, &a, &b);
    let r = calculate_sphere_bearing(a, b);
    let ok = e.is_finite(r);
    e.require("the bearing is a number", E::B::k(ok));
    if !ok {
        return;
    }
    let q = e.q(r);
    let two_pi = e.pi().scale(&qi(2));
    e.require("from zero", E::Q::zero().le(&q));
    e.require("below two pi", q.lt(&two_pi));
    // the destination in the frame (north, east) at the start
    let v = p.vector(1);
    let (lc, ls) = double(&p.lon[0]);
    let (c, s) = double(&p.lat[0]);
    let east = v[1].mul(&lc).sub(&v[0].mul(&ls));
    let north = v[2].mul(&c).sub(&s.mul(&v[0].mul(&lc).add(&v[1].mul(&ls))));
    let (bc, bs) = e.cos_sin(r);
    let tol = e.tol(4.0);
    e.require("on the great circle through the destination", bs.mul(&north).near(&bc.mul(&east), &tol));
    // how far ahead: nothing to say when the destination is the start or its antipode
    let ahead = bs.mul(&east).add(&bc.mul(&north));
    let length2 = sq(&east).add(&sq(&north));
    let none = if E::SYM { east.eq(&E::Q::zero()).and(&north.eq(&E::Q::zero())) } else { length2.le(&E::Q::k(qr(1, 1 << 20))) };
    if !e.decide(&none) {
        e.cover("a direction");
        e.require("towards the destination", E::Q::zero().lt(&ahead));
    }
}

/// C26 with rounding: the range
fn range_<E: Env>(e: &mut E) {
    let (a, b) = match e.param("at") {
        // next to the meridian
        3 => {
            let (p, q) = (e.input("a.lat", &grid(90, -16)), e.input("b.lat", &grid(90, -16)));
            let east = e.input("b.lon", &Spec { lo: qr(-1, 1 << 10), hi: qr(1, 1 << 10), gran: -40, int: false });
            (Point2::new(p, E::S::of_q(&qi(0))), Point2::new(q, east))
        }
        _ => (place(e, "a"), place(e, "b")),
    };
    let r = calculate_sphere_bearing(a, b);
    let ok = e.is_finite(r);
    e.require("the bearing is a number", E::B::k(ok));
    if !ok {
        return;
    }
    e.cover("a number");
    let q = e.q(r);
    let full = {
        let t = <E::S as nalgebra::RealField>::two_pi();
        e.q(t)
    };
    e.require("from zero", E::Q::zero().le(&q));
    e.require("below two pi", q.lt(&full));
}

harness! {
    fn geo_bearing_range ["calculate_sphere_bearing"] (e) { range_(e) }
    fn geo_distance ["calculate_haversine_distance"] (e) { distance(e) }
    fn geo_number ["calculate_haversine_distance"] (e) { number(e) }
    fn geo_bearing ["calculate_sphere_bearing"] (e) { bearing(e) }
}

const B: &str = "every latitude in [-90, 90] and longitude in [-180, 180] degrees, real arithmetic; sines and cosines are exact algebraic unknowns on the unit circle tied together by the addition theorems";
const BE: &str = "every latitude and longitude, every rounded operation with an error term of 2^-20 relative to its range";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    match id {
        "C25" => {
            v.push(Inst::new(geo_distance(), vec![("same", 0)], B).covers(&["a number"]));
            v.push(Inst::new(geo_distance(), vec![("same", 1)], B).covers(&["a number"]));
            v.push(Inst::new(geo_distance(), vec![("same", 0), ("sym", 1)], B).covers(&["a number"]));
            v.push(Inst::new(geo_distance(), vec![("same", 0), ("scale", 1)], B).covers(&["a number"]));
            for at in 0..3 {
                v.push(Inst::new(geo_number(), vec![("at", at)], BE).covers(&["a number"]).soft().opt(|o| {
                    o.err = Some(20);
                    o.name_rounded = true
                }));
            }
            let _ = t;
        }
        "C26" => {
            for at in 0..3 {
                let i = Inst::new(geo_bearing(), vec![("at", at)], B);
                v.push(if at == 1 { i } else { i.covers(&["a direction"]) });
            }
            for at in [0, 3] {
                v.push(Inst::new(geo_bearing_range(), vec![("at", at)], BE).covers(&["a number"]).soft().opt(|o| {
                    o.err = Some(20);
                    o.name_rounded = true;
                    o.timeout_ms = 400;
                    o.assert_ms = 3000;
                }));
            }
        }
        _ => {}
    }
}
