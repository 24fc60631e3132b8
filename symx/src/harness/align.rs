//! The alignment step of the registration, `AbstractIsometry::update_transform`, in two and three dimensions.
//!
//! In two dimensions nalgebra's closed-form SVD is executed symbolically. In three dimensions the SVD is an
//! iteration and is replaced by its specification for the symbolic scalar (see tools/patch_nalgebra.py): U and V
//! are arbitrary orthogonal matrices. Native runs use nalgebra's own code throughout.
use super::*;
use crate::ctx::*;
use crate::sym::{free_var, of_poly, with, Sym};
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry2, Isometry3, Matrix2, Matrix3, Point2, Point3, Quaternion, Translation, UnitComplex, UnitQuaternion, Vector2, Vector3};
use num_traits::AsPrimitive;
use std::any::TypeId;
use std::cell::RefCell;

/// what the stubs were handed and answered, in row-major order
#[derive(Default, Clone)]
struct Rec {
    /// what was decomposed, then U and the transpose of V, and the sign of their determinants' product
    svd: Option<(Vec<Poly>, Vec<Poly>, Vec<Poly>, i64)>,
    /// matrices turned into a rotation by iteration
    iterated: Vec<Vec<Poly>>,
    /// matrices turned into a quaternion (w, x, y, z)
    quat: Vec<(Vec<Poly>, Vec<Poly>)>,
}
thread_local! {
    static REC: RefCell<Rec> = RefCell::default();
}
fn rows<const N: usize>(m: &nalgebra::SMatrix<Sym, N, N>) -> Vec<Poly> {
    (0..N * N).map(|i| (*m[(i / N, i % N)].poly()).clone()).collect()
}
fn orthogonal(name: &str) -> Vec<Poly> {
    let v: Vec<Poly> = (0..9).map(|k| free_var(&format!("{name}{k}"), Some(qi(-1)), Some(qi(1)), Def::Free)).collect();
    with(|c| {
        for i in 0..3 {
            for j in 0..=i {
                let d = sum((0..3).map(|k| v[3 * i + k].mul(&v[3 * j + k])));
                let one = Poly::int((i == j) as i64);
                c.assume(&eq0(d.sub(&one)));
            }
        }
    });
    v
}
fn mat(p: &[Poly]) -> Matrix3<Sym> {
    let s: Vec<Sym> = p.iter().map(|x| of_poly(x.clone())).collect();
    Matrix3::from_row_slice(&s)
}
fn det3<Q: QNum>(m: &[Q]) -> Q {
    let c = |a: usize, b: usize, p: usize, q: usize| m[a].mul(&m[b]).sub(&m[p].mul(&m[q]));
    m[0].mul(&c(4, 8, 5, 7)).sub(&m[1].mul(&c(3, 8, 5, 6))).add(&m[2].mul(&c(3, 7, 4, 6)))
}
fn product<Q: QNum>(a: &[Q], b: &[Q], n: usize) -> Vec<Q> {
    (0..n * n).map(|i| sum((0..n).map(|k| a[i / n * n + k].mul(&b[k * n + i % n])))).collect()
}
fn transpose<Q: QNum>(a: &[Q], n: usize) -> Vec<Q> {
    (0..n * n).map(|i| a[i % n * n + i / n].clone()).collect()
}

fn hook(which: usize, ty: TypeId, input: *const (), output: *mut ()) -> bool {
    if which == 0 && ty == TypeId::of::<Matrix2<Sym>>() {
        let m = unsafe { &*(input as *const Matrix2<Sym>) };
        REC.with(|r| r.borrow_mut().iterated.push(rows(m)));
        return true; // the output is a copy of the input already
    }
    if ty != TypeId::of::<Matrix3<Sym>>() {
        return false;
    }
    let m = unsafe { &*(input as *const Matrix3<Sym>) };
    match which {
        1 => REC.with(|r| r.borrow_mut().iterated.push(rows(m))),
        2 => {
            let sign = if with(|c| c.choose(2)) == 0 { 1 } else { -1 };
            // the general case, and turns about the third axis, where counterexamples are easy to find
            let (u, vt) = if with(|c| c.choose(2)) == 0 {
                (orthogonal("u"), orthogonal("v"))
            } else {
                let (c, s) = crate::trig::fresh_pair();
                let k = |x: i64| Poly::int(x);
                let u = vec![c.clone(), s.neg(), k(0), s, c, k(0), k(0), k(0), k(sign)];
                (u, (0..9).map(|i| k((i % 4 == 0) as i64)).collect())
            };
            let d = det3(&product(&u, &vt, 3));
            with(|c| c.assume(&eq0(d.sub(&Poly::int(sign)))));
            let s: Vec<Poly> = (0..3).map(|k| free_var(&format!("s{k}"), Some(qi(0)), None, Def::Free)).collect();
            with(|c| {
                c.assume(&le0(s[1].sub(&s[0])));
                c.assume(&le0(s[2].sub(&s[1])));
            });
            let out = unsafe { &mut *(output as *mut (Matrix3<Sym>, Vector3<Sym>, Matrix3<Sym>)) };
            *out = (mat(&u), Vector3::new(of_poly(s[0].clone()), of_poly(s[1].clone()), of_poly(s[2].clone())), mat(&vt));
            REC.with(|r| r.borrow_mut().svd = Some((rows(m), u, vt, sign)));
        }
        _ => {
            let q: Vec<Poly> = (0..4).map(|k| free_var(&format!("q{k}"), Some(qi(-1)), Some(qi(1)), Def::Free)).collect();
            let s: Vec<Sym> = q.iter().map(|x| of_poly(x.clone())).collect();
            unsafe { *(output as *mut Quaternion<Sym>) = Quaternion::new(s[0], s[1], s[2], s[3]) };
            REC.with(|r| r.borrow_mut().quat.push((rows(m), q)));
        }
    }
    true
}
pub fn install() {
    nalgebra::symx_hook::install(hook)
}
/// the record, for the symbolic scalar only
fn rec<E: Env>() -> Option<Rec> {
    E::SYM.then(|| REC.with(|r| r.borrow().clone()))
}
fn clear() {
    REC.with(|r| *r.borrow_mut() = Rec::default())
}
/// a symbolic polynomial as a number of the interpretation at hand (which is the symbolic one)
fn lift<E: Env>(p: &[Poly]) -> Vec<E::Q> {
    p.iter()
        .map(|x| (Box::new(x.clone()) as Box<dyn std::any::Any>).downcast::<E::Q>().map(|b| *b))
        .map(|x| x.unwrap_or_else(|_| unreachable!()))
        .collect()
}
fn f64s<E: Env>(v: &[E::Q]) -> Vec<f64> {
    v.iter().map(|x| q_to_f64(&x.concrete().unwrap())).collect()
}

fn real(b: i64) -> Spec {
    grid(b, -4)
}

/// old transform, centroids, what came out of it
struct Step2<E: Env> {
    old: Isometry2<E::S>,
    new: Isometry2<E::S>,
    a: Vec<E::Q>,
    b: Vec<E::Q>,
    m: Vec<E::Q>,
}
fn check2<E: Env>(e: &mut E, s: Step2<E>) {
    if let Some(r) = rec::<E>() {
        for m in &r.iterated {
            // Mueller's iteration, from the identity, extracts a rotation exactly unless it is a half turn
            let m = lift::<E>(m);
            let unit = m[0].mul(&m[0]).add(&m[2].mul(&m[2])).eq(&E::Q::int(1));
            let turn = m[0].eq(&m[3]).and(&E::Q::zero().eq(&m[1].add(&m[2])));
            let half = m[0].eq(&E::Q::int(-1));
            e.require("a rotation is extracted", unit.and(&turn).and(&half.not()));
        }
    }
    let pair = |e: &mut E, i: &Isometry2<E::S>| (e.q(i.rotation.re), e.q(i.rotation.im), e.q(i.translation.x), e.q(i.translation.y));
    let (oc, os, ox, oy) = pair(e, &s.old);
    let (nc, ns, nx, ny) = pair(e, &s.new);
    let tol = e.tol(256.0);
    e.require("a rotation", nc.mul(&nc).add(&ns.mul(&ns)).near(&E::Q::int(1), &e.tol(16.0)));
    // the step: new after the inverse of old
    let c = nc.mul(&oc).add(&ns.mul(&os));
    let d = ns.mul(&oc).sub(&nc.mul(&os));
    let tx = nx.sub(&c.mul(&ox).sub(&d.mul(&oy)));
    let ty = ny.sub(&d.mul(&ox).add(&c.mul(&oy)));
    let px = c.mul(&s.a[0]).sub(&d.mul(&s.a[1])).add(&tx);
    let py = d.mul(&s.a[0]).add(&c.mul(&s.a[1])).add(&ty);
    e.require("carries one centroid onto the other", px.near(&s.b[0], &tol).and(&py.near(&s.b[1], &tol)));
    // the best rotation of all: the trace of its transpose times the covariance is largest
    let x = s.m[0].add(&s.m[3]);
    let y = s.m[2].sub(&s.m[1]);
    let none = if E::SYM { x.eq(&E::Q::zero()).and(&y.eq(&E::Q::zero())) } else { x.mul(&x).add(&y.mul(&y)).lt(&E::Q::k(qr(1, 1 << 12))) };
    if !e.decide(&none) {
        e.cover("a unique optimum");
        e.require("no rotation aligns better", d.mul(&x).near(&c.mul(&y), &tol).and(&E::Q::zero().lt(&c.mul(&x).add(&d.mul(&y)))));
    } else {
        e.cover("any rotation");
    }
}
fn iso2<E: Env>(e: &mut E) -> Isometry2<E::S> {
    let z = E::S::of_q(&qi(0));
    if e.param("old") == 0 {
        return Isometry2::identity();
    }
    let r = if e.param("old") == 1 { e.input("old.angle", &range(-3, 3, -16)) } else { z };
    let t = Vector2::new(e.input("old.x", &real(8)), e.input("old.y", &real(8)));
    Isometry2::from_parts(Translation::from(t), UnitComplex::new(r))
}
fn step2<E: Env>(e: &mut E) {
    clear();
    let old = iso2(e);
    let a: Point2<E::S> = point(e, "mean_a", &real(8));
    let b: Point2<E::S> = point(e, "mean_b", &real(8));
    let m: Vec<E::S> = match e.param("rank") {
        1 => {
            let v: Vec<E::S> = (0..4).map(|k| e.input(&format!("v{k}"), &grid(3, 0))).collect();
            vec![v[0] * v[2], v[0] * v[3], v[1] * v[2], v[1] * v[3]]
        }
        _ => (0..4).map(|k| e.input(&format!("m{k}"), &real(8))).collect(),
    };
    let qm: Vec<E::Q> = m.iter().map(|x| e.q(*x)).collect();
    // pairs of nearest neighbours never have a negative trace
    e.assume(E::Q::zero().le(&qm[0].add(&qm[3])));
    if !E::SYM {
        let q = f64s::<E>(&qm);
        e.assume(E::B::k(q[0] + q[3] > 1e-3));
    }
    let new = IsometryAbstractor::<E::S, 2>::update_transform(&old, a, b, &Matrix2::from_row_slice(&m));
    let s = Step2 { old, new, a: qp(e, &a), b: qp(e, &b), m: qm };
    check2(e, s)
}
/// a whole iteration, from the points to the transform
fn iteration2<E: Env>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
{
    clear();
    let (n, k) = (e.param("n") as usize, e.param("m") as usize);
    let a: Vec<Point2<E::S>> = points(e, "a", n, &grid(4, -2));
    let b: Vec<Point2<E::S>> = points(e, "b", k, &grid(4, -2));
    let (qa, qb) = (qps(e, &a), qps(e, &b));
    let mut cur = a.clone();
    let mut near_ = vec![];
    for p in &qa {
        let mut best = 0;
        for x in 1..k {
            let (db, dx) = (dist2(p, &qb[best]), dist2(p, &qb[x]));
            e.assume(db.ne(&dx));
            if e.decide(&dx.lt(&db)) {
                best = x;
            }
        }
        near_.push(qb[best].clone());
    }
    let old = iso2(e);
    let mut tr = old;
    let mut mse = <E::S as num_traits::Bounded>::max_value();
    let conf = ICPConfiguration::builder().with_mse_interval_threshold(E::S::of_q(&qr(1, 64))).build();
    let _ = icp_iteration::<E::S, 2>(&a, &mut cur, &b, None, &mut tr, &mut mse, &conf);
    let inv = qr(1, n as i64);
    let mean = |v: &[Vec<E::Q>]| -> Vec<E::Q> { (0..2).map(|k| sum(v.iter().map(|p| p[k].clone())).scale(&inv)).collect() };
    let (ma, mb) = (mean(&qa), mean(&near_));
    let m: Vec<E::Q> = (0..4).map(|x| sum((0..n).map(|i| near_[i][x / 2].sub(&mb[x / 2]).mul(&qa[i][x % 2].sub(&ma[x % 2]))))).collect();
    if !E::SYM {
        let q = f64s::<E>(&m);
        e.assume(E::B::k(q[0] + q[3] > 1e-2));
    }
    let s = Step2 { old, new: tr, a: ma, b: mb, m };
    check2(e, s)
}

/// quaternion product
fn qmul<Q: QNum>(a: &[Q], b: &[Q]) -> Vec<Q> {
    let m = |i: usize, j: usize| a[i].mul(&b[j]);
    vec![
        m(0, 0).sub(&m(1, 1)).sub(&m(2, 2)).sub(&m(3, 3)),
        m(0, 1).add(&m(1, 0)).add(&m(2, 3)).sub(&m(3, 2)),
        m(0, 2).sub(&m(1, 3)).add(&m(2, 0)).add(&m(3, 1)),
        m(0, 3).add(&m(1, 2)).sub(&m(2, 1)).add(&m(3, 0)),
    ]
}
fn qrot<Q: QNum>(q: &[Q], v: &[Q]) -> Vec<Q> {
    let cr = |a: &[Q], b: &[Q]| -> Vec<Q> { (0..3).map(|i| a[(i + 1) % 3].mul(&b[(i + 2) % 3]).sub(&a[(i + 2) % 3].mul(&b[(i + 1) % 3]))).collect() };
    let t: Vec<Q> = cr(&q[1..], v).iter().map(|x| x.scale(&qi(2))).collect();
    let u = cr(&q[1..], &t);
    (0..3).map(|i| v[i].add(&q[0].mul(&t[i])).add(&u[i])).collect()
}
fn quat<E: Env>(e: &mut E, q: &UnitQuaternion<E::S>) -> Vec<E::Q> {
    [q.w, q.i, q.j, q.k].iter().map(|x| e.q(*x)).collect()
}
fn step3<E: Env>(e: &mut E) {
    clear();
    let old = if e.param("old") == 0 {
        Isometry3::identity()
    } else {
        let u = e.unit4("old.q");
        let t: Vec<E::S> = (0..3).map(|k| e.input(&format!("old.t{k}"), &real(8))).collect();
        Isometry3::from_parts(Translation::from(Vector3::from_row_slice(&t)), UnitQuaternion::new_unchecked(Quaternion::new(u[0], u[1], u[2], u[3])))
    };
    let a: Point3<E::S> = point(e, "mean_a", &real(8));
    let b: Point3<E::S> = point(e, "mean_b", &real(8));
    let z = E::S::of_q(&qi(0));
    let axis = e.param("axis") as usize;
    let m: Vec<E::S> = match e.param("rank") {
        // pairs on two lines; the first along an axis
        1 => {
            let p: Vec<E::S> = (0..3).map(|k| if k == axis { e.input("p", &ints(1, 3)) } else { z }).collect();
            let q: Vec<E::S> = (0..3).map(|k| if e.param("plane") == 1 + k as i64 { z } else { e.input(&format!("q{k}"), &ints(-3, 3)) }).collect();
            (0..9).map(|i| q[i / 3] * p[i % 3]).collect()
        }
        // a symmetric covariance
        2 => {
            let v: Vec<E::S> = (0..6).map(|k| e.input(&format!("v{k}"), &ints(-3, 3))).collect();
            vec![v[0], v[1], v[2], v[1], v[3], v[4], v[2], v[4], v[5]]
        }
        // pairs in two planes
        3 => {
            let v: Vec<E::S> = (0..6).map(|k| e.input(&format!("v{k}"), &real(8))).collect();
            (0..9).map(|i| if i % 3 == axis { z } else { v[i / 3 * 2 + (i % 3 > axis) as usize] }).collect()
        }
        _ => (0..9).map(|k| e.input(&format!("m{k}"), &real(8))).collect(),
    };
    let qm: Vec<E::Q> = m.iter().map(|x| e.q(*x)).collect();
    e.assume(E::Q::zero().le(&qm[0].add(&qm[4]).add(&qm[8])));
    let new = IsometryAbstractor::<E::S, 3>::update_transform(&old, a, b, &Matrix3::from_row_slice(&m));
    let (qa, qb) = (qp(e, &a), qp(e, &b));
    let (oq, nq) = (quat(e, &old.rotation), quat(e, &new.rotation));
    let (ot, nt): (Vec<E::Q>, Vec<E::Q>) = (0..3).map(|k| (e.q(old.translation.vector[k]), e.q(new.translation.vector[k]))).unzip();
    let tol = e.tol(256.0);
    if let Some(r) = rec::<E>() {
        let (Some((dec, u, vt, sign)), Some((rm, q))) = (r.svd, r.quat.last().cloned()) else {
            e.require("the covariance is decomposed and the result converted", E::B::k(false));
            return;
        };
        let (dec, u, vt, rm, q) = (lift::<E>(&dec), lift::<E>(&u), lift::<E>(&vt), lift::<E>(&rm), lift::<E>(&q));
        e.cover(if sign > 0 { "proper" } else { "reflection" });
        // Kabsch: U diag(1, 1, det U det V) V^T for the covariance, or its transpose for the transposed one
        let sg = E::Q::int(sign);
        let ud: Vec<E::Q> = (0..9).map(|i| if i % 3 == 2 { u[i].mul(&sg) } else { u[i].clone() }).collect();
        let best = product(&ud, &vt, 3);
        let direct = same(&dec, &qm).and(&same(&rm, &best));
        let turned = same(&dec, &transpose(&qm, 3)).and(&same(&rm, &transpose(&best, 3)));
        e.require("the best rotation for the covariance", direct.or(&turned));
        for m in &r.iterated {
            let m = lift::<E>(m);
            let half = sum([m[0].clone(), m[4].clone(), m[8].clone()]).eq(&E::Q::int(-1));
            e.require("an iteration from the identity is not given a half turn", half.not());
        }
        // composition: the step after the old transform
        e.require("the rotations are composed", same(&nq, &qmul(&q, &oq)));
        let ra: Vec<E::Q> = (0..3).map(|i| sum((0..3).map(|k| rm[3 * i + k].mul(&qa[k])))).collect();
        let moved = qrot(&q, &ot);
        let want: Vec<E::Q> = (0..3).map(|k| qb[k].sub(&ra[k]).add(&moved[k])).collect();
        e.require("carries one centroid onto the other", same(&nt, &want));
    } else {
        let inv: Vec<E::Q> = oq.iter().enumerate().map(|(k, x)| if k == 0 { x.clone() } else { E::Q::zero().sub(x) }).collect();
        let q = qmul(&nq, &inv);
        let len = sum(q.iter().map(|x| x.mul(x)));
        e.require("a rotation", len.near(&E::Q::int(1), &e.tol(16.0)));
        let moved = qrot(&q, &ot);
        let ra = qrot(&q, &qa);
        let at: Vec<E::Q> = (0..3).map(|k| nt[k].sub(&moved[k]).add(&ra[k])).collect();
        e.require("carries one centroid onto the other", near(&at, &qb, &tol));
        let unit = |k: usize| (0..3).map(|i| E::Q::int((i == k) as i64)).collect::<Vec<_>>();
        let cols: Vec<Vec<E::Q>> = (0..3).map(|k| qrot(&q, &unit(k))).collect();
        let trace = sum((0..9).map(|i| cols[i % 3][i / 3].mul(&qm[i])));
        let f = f64s::<E>(&qm);
        let m64 = Matrix3::from_row_slice(&f);
        let s = m64.svd(false, false).singular_values;
        let improper = m64.determinant() < 0.0;
        let best = s[0] + s[1] + if improper { -s[2] } else { s[2] };
        e.require("the best rotation for the covariance", E::Q::k(qf(best)).sub(&E::Q::k(tol)).le(&trace));
    }
}

harness! {
    fn align_step_2d ["AbstractIsometry<T, 2>::update_transform", "verify_rotation_matrix_determinant", "nalgebra::linalg::svd2"] (e) { step2(e) }
    fn align_iteration_2d ["icp_iteration", "get_rotation_matrix_and_centroids", "outer_product", "calculate_point_cloud_center", "AbstractIsometry<T, 2>::update_transform", "verify_rotation_matrix_determinant", "nalgebra::linalg::svd2"] (e) { iteration2(e) }
    fn align_step_3d ["AbstractIsometry<T, 3>::update_transform", "verify_rotation_matrix_determinant"] (e) { step3(e) }
}

const B2: &str = "every 2x2 covariance with a non-negative trace (which nearest pairs always have), all centroids, an arbitrary old transform (old: 0 identity, 1 any, 2 any translation); rank 1: integer lines; real arithmetic, half angles as exact unit pairs";
const B3: &str = "every 3x3 covariance with a non-negative trace, all centroids, every old transform; the SVD replaced by its specification: U, V arbitrary orthogonal matrices, so a reflection may or may not be needed";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    if id != "C24" {
        return;
    }
    let i = |h: Harness, p: Vec<(&'static str, i64)>, b: &str| {
        let three = h.name == "align_step_3d";
        // models of orthogonal matrices take long to find and decide nothing
        Inst::new(h, p, b).proc().abstracted().opt(|o| o.timeout_ms = if three { 500 } else { o.timeout_ms })
    };
    v.push(i(align_step_2d(), vec![("old", 0), ("rank", 1)], B2).covers(&["a unique optimum", "any rotation"]));
    for axis in 0..3 {
        v.push(i(align_step_3d(), vec![("old", 0), ("rank", 1), ("axis", axis), ("plane", 1)], B3).covers(&["proper", "reflection"]));
        v.push(i(align_step_3d(), vec![("old", 0), ("rank", 1), ("axis", axis)], B3).covers(&["proper", "reflection"]));
        v.push(i(align_step_3d(), vec![("old", 0), ("rank", 3), ("axis", axis)], B3).covers(&["proper", "reflection"]));
    }
    for old in [0, 2, 1] {
        v.push(i(align_step_2d(), vec![("old", old)], B2).covers(&["a unique optimum"]));
    }
    for old in [0, 1] {
        v.push(i(align_step_3d(), vec![("old", old)], B3).covers(&["proper", "reflection"]));
        v.push(i(align_step_3d(), vec![("old", old), ("rank", 2)], B3).covers(&["proper", "reflection"]));
    }
    v.push(i(align_iteration_2d(), vec![("n", 2), ("m", 1), ("old", 0)], B2));
    v.push(i(align_iteration_2d(), vec![("n", 2), ("m", 2), ("old", 0)], B2).covers(&["a unique optimum"]));
    if t {
        v.push(i(align_iteration_2d(), vec![("n", 3), ("m", 2), ("old", 0)], B2).covers(&["a unique optimum"]));
        v.push(i(align_iteration_2d(), vec![("n", 3), ("m", 3), ("old", 1)], B2).covers(&["a unique optimum"]).secs(900));
    }
}
