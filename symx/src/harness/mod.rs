//! Harnesses: the properties as assertions over the real library code.
use crate::env::*;
use crate::explore::{Harness, Inst};
use crate::poly::*;
use nalgebra::Point;

/// declares a harness generic over the interpretation
macro_rules! harness {
    ($(fn $name:ident [$($f:literal),* $(,)?] ($e:ident) $body:block)*) => {$(
        pub fn $name() -> $crate::explore::Harness {
            fn run<E: $crate::env::Env>($e: &mut E)
            where
                usize: num_traits::AsPrimitive<E::S>,
                f32: num_traits::AsPrimitive<E::S>,
                usize: num_traits::AsPrimitive<E::U8> + num_traits::AsPrimitive<E::I8> + num_traits::AsPrimitive<E::U16> + num_traits::AsPrimitive<E::I32>,
            $body
            $crate::explore::Harness {
                name: stringify!($name),
                sym: run::<$crate::env::SymEnv>,
                f64: run::<$crate::env::NatEnv<f64>>,
                f32: run::<$crate::env::NatEnv<f32>>,
                funcs: &[$($f),*],
            }
        }
    )*
    pub fn list() -> Vec<$crate::explore::Harness> { vec![$($name()),*] }
    };
}

pub mod align;
mod clouds;
mod geo;
mod hull;
mod icp;
mod lines;
mod polygon;
mod search;
mod sorting;

pub fn point<E: Env, const N: usize>(e: &mut E, name: &str, spec: &Spec) -> Point<E::S, N> {
    let spec = scaled(e, spec);
    Point::from(std::array::from_fn(|k| e.input(&format!("{name}.{k}"), &spec)))
}
/// 2^scale
pub fn unit<E: Env>(e: &mut E) -> Q_ {
    q2(e.param("scale") as i32)
}
pub fn scaled<E: Env>(e: &mut E, spec: &Spec) -> Spec {
    let u = unit(e);
    Spec { lo: &spec.lo * &u, hi: &spec.hi * &u, gran: spec.gran + e.param("scale") as i32, int: spec.int }
}
/// error allowance at a magnitude of `mag` times the scale
pub fn tol<E: Env>(e: &mut E, mag: f64) -> Q_ {
    let s = e.param("scale") as i32;
    e.tol(mag * 2f64.powi(s))
}
pub fn points<E: Env, const N: usize>(e: &mut E, name: &str, n: usize, spec: &Spec) -> Vec<Point<E::S, N>> {
    (0..n).map(|i| point(e, &format!("{name}{i}"), spec)).collect()
}
/// concrete points on one line: growing, falling, one after the other from the ends inwards, growing along one axis;
/// or (7 and 8) on a parabola, one after the other or shuffled
pub fn chain<E: Env, const N: usize>(n: usize, shape: i64) -> Vec<Point<E::S, N>> {
    (0..n as i64)
        .map(|i| {
            let c: [i64; N] = match shape {
                // reaches a split on every axis, then forks on the last one
                9 if i < N as i64 => [i; N],
                9 => {
                    let (n, far) = (N as i64, i - N as i64);
                    std::array::from_fn(|k| if k < N - 1 { n + (far * 2 + k as i64) % 3 } else if far % 2 == 0 { n - 3 - far / 2 } else { n + 3 + far })
                }
                7 | 8 => {
                    let x = if shape == 7 { i } else { (i * 7 + 3) % n as i64 } - n as i64 / 2;
                    std::array::from_fn(|k| if k == 0 { x } else { x * x })
                }
                1 => [i; N],
                2 => [-i; N],
                3 => [if i % 2 == 0 { i / 2 } else { n as i64 - i / 2 - 1 }; N],
                4 => std::array::from_fn(|k| if k == 0 { i } else { 3 }),
                5 => std::array::from_fn(|k| if k == N - 1 { -i } else { 2 }),
                _ => std::array::from_fn(|k| if k % 2 == 0 { i } else { -i }),
            };
            Point::from(c.map(|c| E::S::of_q(&qi(c))))
        })
        .collect()
}
/// concrete points of a small lattice, so that coordinates, lines and whole points repeat
pub fn given<E: Env, const N: usize>(n: usize, seed: i64, span: i64, distinct: bool) -> Vec<Point<E::S, N>> {
    let mut x = (seed as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x2545_f491_4f6c_dd1d;
    let mut draw = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 33) as i64 % (2 * span + 1) - span
    };
    let mut out: Vec<[i64; N]> = vec![];
    while out.len() < n {
        let p: [i64; N] = std::array::from_fn(|_| draw());
        if !distinct || !out.contains(&p) {
            out.push(p);
        }
    }
    out.iter().map(|p| Point::from(p.map(|c| E::S::of_q(&qi(c))))).collect()
}
/// `n` arbitrary points, and `given` concrete ones (see there): the arbitrary points come after `at` of these
pub fn cloud<E: Env, const N: usize>(e: &mut E, name: &str, n: usize, spec: &Spec, distinct: bool) -> Vec<Point<E::S, N>> {
    let span = match e.param("span") {
        0 => 4,
        s => s,
    };
    let g = e.param("given") as usize;
    let mut v = match e.param("shape") {
        0 => given::<E, N>(g, e.param("seed"), span, distinct),
        shape => chain::<E, N>(g, shape),
    };
    if e.param("scale") != 0 {
        let u = E::S::of_q(&unit(e));
        v.iter_mut().for_each(|p| p.iter_mut().for_each(|c| *c = *c * u));
    }
    let any = points(e, name, n, spec);
    let at = (e.param("at") as usize).min(v.len());
    v.splice(at..at, any);
    v
}
pub const GIVEN: &str = "; `given` further points are concrete, drawn by `seed` from the integers of magnitude up to `span` (4 by default), `at` of them before the arbitrary ones; with `shape`, they lie on a line instead, in a fixed order (rising, falling, from the ends inwards, along one axis), on a parabola (7, 8), or so that the tree forks on its last axis (9)";
pub const SCALE: &str = "; all lengths times 2^scale";
pub fn qp<E: Env, const N: usize>(e: &mut E, p: &Point<E::S, N>) -> Vec<E::Q> {
    p.coords.iter().map(|c| e.q(*c)).collect()
}
pub fn qps<E: Env, const N: usize>(e: &mut E, p: &[Point<E::S, N>]) -> Vec<Vec<E::Q>> {
    p.iter().map(|p| qp(e, p)).collect()
}
pub fn sum<Q: QNum>(v: impl IntoIterator<Item = Q>) -> Q {
    v.into_iter().fold(Q::zero(), |a, b| a.add(&b))
}
pub fn dist2<Q: QNum>(a: &[Q], b: &[Q]) -> Q {
    sum(a.iter().zip(b).map(|(x, y)| {
        let d = x.sub(y);
        d.mul(&d)
    }))
}
pub fn same<Q: QNum>(a: &[Q], b: &[Q]) -> Q::B {
    Q::B::all(a.iter().zip(b).map(|(x, y)| x.eq(y)).collect())
}
pub fn near<Q: QNum>(a: &[Q], b: &[Q], tol: &Q_) -> Q::B {
    Q::B::all(a.iter().zip(b).map(|(x, y)| x.near(y, tol)).collect())
}
pub type Q_ = crate::poly::Q;
/// lexicographic a <= b
pub fn lex_le<Q: QNum>(a: &[Q], b: &[Q]) -> Q::B {
    match a.split_first() {
        None => Q::B::k(true),
        Some((x, r)) => {
            let (y, s) = b.split_first().unwrap();
            x.lt(y).or(&x.eq(y).and(&lex_le(r, s)))
        }
    }
}
pub fn is_in<Q: QNum>(p: &[Q], set: &[Vec<Q>]) -> Q::B {
    Q::B::any(set.iter().map(|s| same(p, s)).collect())
}
/// twice the signed area of (a, b, c); negative for a clockwise turn
pub fn cross<Q: QNum>(a: &[Q], b: &[Q], c: &[Q]) -> Q {
    b[0].sub(&a[0]).mul(&c[1].sub(&a[1])).sub(&b[1].sub(&a[1]).mul(&c[0].sub(&a[0])))
}

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(hull::list());
    v.extend(icp::list());
    v.extend(align::list());
    v.extend(clouds::list());
    v.extend(geo::list());
    v.extend(lines::list());
    v.extend(polygon::list());
    v.extend(search::list());
    v.extend(sorting::list());
    v
}
pub fn find(name: &str) -> Option<Harness> {
    all().into_iter().find(|h| h.name == name)
}
pub fn plan(id: &str, tier: &str) -> Vec<Inst> {
    let t = tier != "quick";
    let mut v = vec![];
    hull::plan(id, t, &mut v);
    icp::plan(id, t, &mut v);
    align::plan(id, t, &mut v);
    clouds::plan(id, t, &mut v);
    geo::plan(id, t, &mut v);
    lines::plan(id, t, &mut v);
    polygon::plan(id, t, &mut v);
    search::plan(id, t, &mut v);
    sorting::plan(id, t, &mut v);
    v
}
pub fn assumptions(id: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![
        "floating-point scalars are exact reals over the stated lattice: every operation whose result is certified to fit a 24-bit significand is exact in f32 and f64; all others are counted and treated as real arithmetic or with an explicit error term (see harness label)".into(),
        "signed zero is not distinguished from zero; overflow to infinity and subnormal underflow lie outside the input ranges".into(),
        "nothing is claimed beyond the stated number of points, dimensions, value ranges and iterations".into(),
    ];
    let _ = id;
    let _ = qi(0);
    v.dedup();
    v
}
