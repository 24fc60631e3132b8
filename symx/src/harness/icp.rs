//! Iterative closest point. The alignment step (`AbstractIsometry::update_transform`) is a nondeterministic
//! recorder here: it stores what it is handed and returns an arbitrary transform. The step itself is C24.
use super::*;
use crate::nf::Nf;
use crate::sym::Sym;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{Isometry, Rotation, SMatrix, SVector, Translation};
use num_traits::AsPrimitive;
use std::cell::RefCell;

/// rotation entries (row major) and translation
type Rigid<S> = (Vec<S>, Vec<S>);
#[derive(Clone)]
pub struct Call<S> {
    old: Rigid<S>,
    mean_a: Vec<S>,
    mean_b: Vec<S>,
    /// row major
    cov: Vec<S>,
}
#[derive(Clone)]
pub struct Stub<S> {
    outs: Vec<Rigid<S>>,
    calls: Vec<Call<S>>,
}
impl<S> Default for Stub<S> {
    fn default() -> Self {
        Stub { outs: vec![], calls: vec![] }
    }
}
pub trait Stubbed: Sized {
    fn stub<R>(f: impl FnOnce(&mut Stub<Self>) -> R) -> R;
}
fn flat<S: Copy, const N: usize>(m: &SMatrix<S, N, N>) -> Vec<S> {
    (0..N * N).map(|i| m.data.0[i % N][i / N]).collect()
}
fn rigid<S: nalgebra::Scalar + Copy, const N: usize>(i: &Isometry<S, Rotation<S, N>, N>) -> Rigid<S> {
    (flat(&i.rotation.into_inner()), i.translation.vector.data.0[0].to_vec())
}
fn iso<S: crate::env::Scal, const N: usize>(r: &Rigid<S>) -> Isometry<S, Rotation<S, N>, N> {
    let m = SMatrix::<S, N, N>::from_row_slice(&r.0);
    let t = SVector::<S, N>::from_row_slice(&r.1);
    Isometry::from_parts(Translation::from(t), Rotation::from_matrix_unchecked(m))
}
fn identity<S: crate::env::Scal>(n: usize) -> Rigid<S> {
    let k = |b: bool| S::of_q(&qi(b as i64));
    ((0..n * n).map(|i| k(i % n == i / n)).collect(), vec![k(false); n])
}
macro_rules! stub {
    ($s:ty; $($n:literal),*) => {
        impl Stubbed for $s {
            fn stub<R>(f: impl FnOnce(&mut Stub<Self>) -> R) -> R {
                thread_local! { static ST: RefCell<Stub<$s>> = RefCell::default(); }
                ST.with(|s| f(&mut s.borrow_mut()))
            }
        }
        $(impl AbstractIsometry<$s, $n> for IsometryAbstractor<$s, $n> {
            type RotType = Rotation<$s, $n>;
            fn update_transform(
                old: &Isometry<$s, Self::RotType, $n>,
                mean_a: Point<$s, $n>,
                mean_b: Point<$s, $n>,
                cov: &SMatrix<$s, $n, $n>,
            ) -> Isometry<$s, Self::RotType, $n> {
                let call = Call { old: rigid(old), mean_a: mean_a.coords.data.0[0].to_vec(), mean_b: mean_b.coords.data.0[0].to_vec(), cov: flat(cov) };
                let out = <$s>::stub(|s| {
                    let k = s.calls.len();
                    s.calls.push(call);
                    s.outs.get(k).cloned().unwrap_or_else(|| identity($n))
                });
                iso(&out)
            }
        })*
    };
}
stub!(Sym; 1, 4);
stub!(Nf; 1, 4);

fn start<S: Stubbed>(outs: Vec<Rigid<S>>) {
    S::stub(|s| *s = Stub { outs, calls: vec![] })
}
fn calls<S: Stubbed + Clone>() -> Vec<Call<S>> {
    S::stub(|s| s.calls.clone())
}
fn qv<E: Env>(e: &mut E, v: &[E::S]) -> Vec<E::Q> {
    v.iter().map(|x| e.q(*x)).collect()
}
fn same_rigid<E: Env>(e: &mut E, a: &Rigid<E::S>, b: &Rigid<E::S>) -> E::B {
    let (a0, a1, b0, b1) = (qv(e, &a.0), qv(e, &a.1), qv(e, &b.0), qv(e, &b.1));
    same(&a0, &b0).and(&same(&a1, &b1))
}
fn apply<E: Env>(r: &(Vec<E::Q>, Vec<E::Q>), p: &[E::Q]) -> Vec<E::Q> {
    let n = p.len();
    (0..n).map(|i| sum((0..n).map(|j| r.0[i * n + j].mul(&p[j]))).add(&r.1[i])).collect()
}
fn config<S: 'static + Copy>(kd: bool, iters: usize, abs: Option<S>, int: S) -> ICPConfiguration<S>
where
    f32: AsPrimitive<S>,
{
    ICPConfiguration::builder()
        .with_kd_tree(kd)
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs)
        .with_mse_interval_threshold(int)
        .build()
}
/// the arbitrary sources `a` and targets `b`, with `givena` and `given` concrete ones
fn clouds<E: Env, const N: usize>(e: &mut E, n: usize, m: usize) -> (Vec<Point<E::S, N>>, Vec<Point<E::S, N>>) {
    let g = grid(8, -2);
    let (na, seed) = (e.param("givena") as usize, e.param("seed"));
    let mut a = given_sources::<E, N>(e, na, seed + 1000);
    let any = points(e, "a", n, &g);
    a.splice(na / 2..na / 2, any);
    (a, cloud(e, "b", m, &g, true))
}
/// concrete sources, off the lattice of the concrete targets so that no two of those are equally near
fn given_sources<E: Env, const N: usize>(e: &mut E, n: usize, seed: i64) -> Vec<Point<E::S, N>> {
    let u = E::S::of_q(&unit(e));
    let mut v = given::<E, N>(n, seed, 8, false);
    for p in &mut v {
        for k in 0..N {
            p[k] += E::S::of_q(&qr(1, 4 << k));
            p[k] *= u;
        }
    }
    v
}
/// positions of the targets nearest to p
fn nearest<E: Env>(e: &mut E, p: &[E::Q], b: &[Vec<E::Q>]) -> Vec<usize> {
    let d: Vec<E::Q> = b.iter().map(|x| dist2(p, x)).collect();
    (0..b.len())
        .filter(|i| {
            let c = E::B::all(d.iter().map(|x| d[*i].le(x)).collect());
            e.decide(&c)
        })
        .collect()
}
/// thresholds are squared lengths
fn thr<E: Env>(e: &mut E) -> Spec {
    let s = scaled(e, &Spec { lo: qr(1, 64), hi: qi(64), gran: -6, int: false });
    scaled(e, &s)
}
/// translations
fn step<E: Env>(e: &mut E) -> Spec {
    scaled(e, &grid(8, -2))
}
fn tol_<E: Env>(e: &mut E, mag: f64) -> Q_ {
    let s = e.param("scale") as i32;
    e.tol(mag * 2f64.powi(s.max(2 * s)))
}

/// one iteration from an arbitrary state
fn iteration<E: Env, const N: usize>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, N>: AbstractIsometry<E::S, N, RotType = Rotation<E::S, N>>,
{
    let (n, m) = (e.param("n") as usize, e.param("m") as usize);
    let g = step(e);
    let (a, b) = clouds::<E, N>(e, n, m);
    let na = e.param("givena") as usize;
    let seed = e.param("seed");
    let mut cur = given_sources::<E, N>(e, na, seed + 2000);
    let thr = thr(e);
    let any = points(e, "cur", n, &grid(8, -2));
    cur.splice(na / 2..na / 2, any);
    let (n, m) = (a.len(), b.len());
    let (qa, qb, qc) = (qps(e, &a), qps(e, &b), qps(e, &cur));
    let rnd = |e: &mut E, name: &str| -> Rigid<E::S> {
        let full = e.param("rot") == 1;
        let r = (0..N * N)
            .map(|i| match full {
                true => e.input(&format!("{name}.r{i}"), &grid(2, -1)),
                false => E::S::of_q(&qi((i % N == i / N) as i64)),
            })
            .collect();
        (r, (0..N).map(|i| e.input(&format!("{name}.t{i}"), &g)).collect())
    };
    let old = rnd(e, "old");
    let out = rnd(e, "out");
    let abs = if e.choose("absolute", 2) == 1 { Some(e.input("abs", &thr)) } else { None };
    let int = e.input("int", &thr);
    let first = e.choose("first iteration", 2) == 1;
    let before = if first { <E::S as num_traits::Bounded>::max_value() } else { {
        let s = scaled(e, &range(0, 256, -4));
        let s = scaled(e, &s);
        e.input("before", &s)
    } };
    let tree = (e.param("kd") == 1).then(|| KDTree::from(&b[..]));
    let conf = config(e.param("kd") == 1, 5, abs, int);

    start(vec![out.clone()]);
    let mut tr = iso::<E::S, N>(&old);
    let mut mse = before;
    let res = icp_iteration::<E::S, N>(&a, &mut cur, &b, tree.as_ref(), &mut tr, &mut mse, &conf);
    let calls = calls::<E::S>();

    e.require("one alignment per iteration", E::B::k(calls.len() == 1));
    let Some(c) = calls.first() else { return };
    let handed_old = same_rigid(e, &c.old, &old);
    e.require("the alignment starts from the current transform", handed_old);
    let now = same_rigid(e, &rigid(&tr), &out);
    e.require("the aligned transform becomes the current one", now);
    let qo = (qv(e, &out.0), qv(e, &out.1));
    let moved: Vec<Vec<E::Q>> = qa.iter().map(|p| apply::<E>(&qo, p)).collect();
    let after = qps(e, &cur);
    let tol = tol_(e, 1e4);
    for (x, y) in after.iter().zip(&moved) {
        e.require("current points are the source points under the new transform", near(x, y, &tol));
    }
    // what was handed over and measured, for some choice of nearest targets
    let (ma, mb, cov) = (qv(e, &c.mean_a), qv(e, &c.mean_b), qv(e, &c.cov));
    let inv = qr(1, n as i64);
    let mean = |v: &[Vec<E::Q>]| -> Vec<E::Q> { (0..N).map(|k| sum(v.iter().map(|p| p[k].clone())).scale(&inv)).collect() };
    let qma = mean(&qc);
    e.require("centroid of the current points", near(&ma, &qma, &tol));
    let prev = if first { E::Q::k(qf(f64::MAX)) } else { e.q(before) };
    let (got, conv, means) = match &res {
        Ok(x) => (*x, true, None),
        Err(ICPError::IterationDidNotConverge((x, y))) => (mse, false, Some((qp(e, x), qp(e, y)))),
        Err(_) => {
            e.require("an iteration on a non-empty target does not fail", E::B::k(false));
            return;
        }
    };
    e.cover(if conv { "converged" } else { "not yet" });
    let got = e.q(got);
    let mut some = vec![];
    let mut picks: Vec<Vec<usize>> = vec![vec![]];
    for c in &qc {
        let can = if n * m > 6 { nearest(e, c, &qb) } else { (0..m).collect() };
        picks = picks.iter().flat_map(|p| can.iter().map(|j| p.iter().copied().chain([*j]).collect())).collect();
    }
    for pick in picks {
        let tgt: Vec<Vec<E::Q>> = pick.iter().map(|j| qb[*j].clone()).collect();
        let mut all = vec![];
        for i in 0..n {
            let d = dist2(&qc[i], &tgt[i]);
            for x in &qb {
                all.push(d.le(&dist2(&qc[i], x)));
            }
        }
        let qmb = mean(&tgt);
        all.push(near(&mb, &qmb, &tol));
        // cross-covariance: target times source, as a sum or as a mean
        let h: Vec<E::Q> = (0..N * N)
            .map(|x| sum((0..n).map(|i| tgt[i][x / N].sub(&qmb[x / N]).mul(&qc[i][x % N].sub(&qma[x % N])))))
            .collect();
        let hm: Vec<E::Q> = h.iter().map(|x| x.scale(&inv)).collect();
        all.push(near(&cov, &h, &tol).or(&near(&cov, &hm, &tol)));
        let err = sum((0..n).map(|i| dist2(&moved[i], &tgt[i])));
        all.push(got.near(&err, &tol));
        some.push(E::B::all(all));
    }
    e.require("centroids, covariance and error are those of nearest pairs", E::B::any(some));
    // the decision
    let int = e.q(int);
    let d = prev.sub(&got);
    let small = d.lt(&int).and(&E::Q::zero().sub(&d).lt(&int));
    let below = match abs {
        Some(t) => {
            let t = e.q(t);
            got.lt(&t)
        }
        None => E::B::k(false),
    };
    let want = small.or(&below);
    e.require("converges exactly by the rule", if conv { want } else { want.not() });
    if let Some((x, y)) = means {
        e.require("reports the centroids", near(&x, &ma, &tol).and(&near(&y, &mb, &tol)));
    }
}

/// whole registrations over an arbitrary sequence of alignments
fn history<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
{
    let (n, m, k) = (e.param("n") as usize, e.param("m") as usize, e.param("k") as usize);
    let (g, thr) = (step(e), thr(e));
    let (a, b) = clouds::<E, 1>(e, n, m);
    let (n, m) = (a.len(), b.len());
    let (qa, qb) = (qps(e, &a), qps(e, &b));
    let one = E::S::of_q(&qi(1));
    // the first `fix` alignments are concrete, and far apart
    let fix = e.param("fix") as usize;
    let u = unit(e);
    let outs: Vec<Rigid<E::S>> = (0..k)
        .map(|i| match i < fix {
            true => (vec![one], vec![E::S::of_q(&(qi(400 - 200 * (i as i64 % 2) + i as i64 % 5) * &u))]),
            false => (vec![one], vec![e.input(&format!("t{i}"), &g)]),
        })
        .collect();
    let qt: Vec<E::Q> = outs.iter().map(|o| e.q(o.1[0])).collect();
    let abs = if e.param("abs") == 1 { Some(e.input("abs", &thr)) } else { None };
    let int = e.input("int", &thr);
    let conf = config(e.param("kd") == 1, k, abs, int);
    start(outs.clone());
    let res = icp::<E::S, 1>(&a, &b, conf);
    let calls = calls::<E::S>();
    let (qint, qabs) = (e.q(int), abs.map(|x| e.q(x)));
    let mut cur = qa.clone();
    let mut prev = E::Q::k(qf(f64::MAX));
    let mut old = identity::<E::S>(1);
    for i in 0..k {
        if i >= calls.len() {
            e.require("goes on until it converges", E::B::k(false));
            return;
        }
        let st = same_rigid(e, &calls[i].old, &old);
        e.require("each alignment starts from the previous transform", st);
        let ma = e.q(calls[i].mean_a[0]);
        let w = sum(cur.iter().map(|p| p[0].clone())).scale(&qr(1, n as i64));
        let tol = tol_(e, 1e3);
        e.require("each iteration starts from the current points", ma.near(&w, &tol));
        // nearest targets (ties excluded by assumption)
        let mut err = E::Q::zero();
        for (j, p) in cur.iter().enumerate() {
            let mut best = 0;
            for x in 1..m {
                let (db, dx) = (dist2(p, &qb[best]), dist2(p, &qb[x]));
                e.assume(db.ne(&dx).or(&same(&qb[best], &qb[x])));
                if e.decide(&dx.lt(&db)) {
                    best = x;
                }
            }
            err = err.add(&dist2(&[qa[j][0].add(&qt[i])], &qb[best]));
        }
        cur = qa.iter().map(|p| vec![p[0].add(&qt[i])]).collect();
        old = outs[i].clone();
        let d = prev.sub(&err);
        let mut conv = d.lt(&qint).and(&E::Q::zero().sub(&d).lt(&qint));
        if let Some(t) = &qabs {
            conv = conv.or(&err.lt(t));
        }
        prev = err.clone();
        if e.decide(&conv) {
            e.cover(&format!("converged at {i}"));
            let Ok(s) = &res else {
                e.require("succeeds at the first converged iteration", E::B::k(false));
                return;
            };
            e.require("stops there", E::B::k(calls.len() == i + 1));
            e.require("reports the iteration number", E::B::k(s.iteration_num == i));
            let tr = same_rigid(e, &rigid(&s.transform), &old);
            e.require("reports the transform it reached", tr);
            let got = e.q(s.mse);
            e.require("reports the error of that transform", got.near(&err, &tol));
            return;
        }
    }
    e.cover("never converged");
    e.require("no more iterations than allowed", E::B::k(calls.len() == k));
    e.require("fails when nothing converged", E::B::k(matches!(res, Err(ICPError::AlrogithmDidNotConverge))));
}

/// the same registration with and without the tree
fn tree_or_not<E: Env, const N: usize>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, N>: AbstractIsometry<E::S, N, RotType = Rotation<E::S, N>>,
{
    let (n, m, k) = (e.param("n") as usize, e.param("m") as usize, e.param("k") as usize);
    let (g, thr) = (step(e), thr(e));
    let (a, b) = clouds::<E, N>(e, n, m);
    let m = b.len();
    let (qa, qb) = (qps(e, &a), qps(e, &b));
    let mut outs: Vec<Rigid<E::S>> = vec![];
    let mut at = vec![vec![E::Q::zero(); N]];
    for i in 0..k {
        let t: Vec<E::S> = (0..N).map(|j| if j == 0 || N > 1 && j == 1 { e.input(&format!("t{i}.{j}"), &g) } else { E::S::of_q(&qi(0)) }).collect();
        at.push(qv(e, &t));
        outs.push((identity(N).0, t));
    }
    // no source point ever has two equally near (different) targets
    for t in &at[..k] {
        for p in &qa {
            let p: Vec<E::Q> = p.iter().zip(t).map(|(x, y)| x.add(y)).collect();
            for i in 0..m {
                for j in 0..i {
                    let c = dist2(&p, &qb[i]).ne(&dist2(&p, &qb[j])).or(&same(&qb[i], &qb[j]));
                    e.assume(c);
                }
            }
        }
    }
    let u = unit(e);
    let abs = E::S::of_q(&(&u * &u));
    let int = e.input("int", &thr);
    start(outs.clone());
    let x = icp::<E::S, N>(&a, &b, config(true, k, Some(abs), int));
    let cx = calls::<E::S>();
    start(outs);
    let y = icp::<E::S, N>(&a, &b, config(false, k, Some(abs), int));
    let cy = calls::<E::S>();
    match (x, y) {
        (Ok(x), Ok(y)) => {
            e.cover("both succeed");
            let tr = same_rigid(e, &rigid(&x.transform), &rigid(&y.transform));
            e.require("same transform", tr);
            let (p, q) = (e.q(x.mse), e.q(y.mse));
            let tol = tol_(e, 1e4);
            e.require("same error", p.near(&q, &tol));
            e.require("same iteration", E::B::k(x.iteration_num == y.iteration_num));
        }
        (Err(x), Err(y)) => {
            e.cover("both fail");
            e.require("same failure", E::B::k(std::mem::discriminant(&x) == std::mem::discriminant(&y)));
        }
        _ => e.require("both succeed or both fail", E::B::k(false)),
    }
    e.require("same number of alignments", E::B::k(cx.len() == cy.len()));
    let tol = tol_(e, 1e4);
    for (p, q) in cx.iter().zip(&cy) {
        for (u, v) in [(&p.mean_a, &q.mean_a), (&p.mean_b, &q.mean_b), (&p.cov, &q.cov)] {
            let (u, v) = (qv(e, u), qv(e, v));
            e.require("same alignment problem", near(&u, &v, &tol));
        }
    }
}

/// the guards
fn guards<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
{
    let (n, m, k) = (e.choose("sources", 3), e.choose("targets", 3), e.choose("limit", 3));
    let a = points::<E, 1>(e, "a", n, &grid(4, 0));
    let b = points::<E, 1>(e, "b", m, &grid(4, 0));
    let spec = Spec { lo: qi(-4), hi: qi(4), gran: -60, int: false };
    let int = e.input_special("int", &spec, 3);
    let abs = if e.choose("absolute", 2) == 1 { Some(e.input_special("abs", &spec, 3)) } else { None };
    let eps = <E::S as approx::AbsDiffEq>::default_epsilon();
    let qeps = e.q(eps);
    // 1: not a usable threshold
    let bad = |e: &mut E, t: E::S| -> bool {
        if mapping_algorithms::types::IsNan::is_nan(t) {
            return true;
        }
        if !e.is_finite(t) {
            return t < E::S::of_q(&qi(0));
        }
        let q = e.q(t);
        e.decide(&q.le(&qeps))
    };
    start::<E::S>(vec![]);
    let res = icp::<E::S, 1>(&a, &b, config(e.choose("tree", 2) == 1, k, abs, int));
    let ran = calls::<E::S>().len();
    let want = if n == 0 {
        1
    } else if m == 0 {
        2
    } else if k == 0 {
        3
    } else if bad(e, int) {
        4
    } else if abs.is_some_and(|t| bad(e, t)) {
        5
    } else {
        0
    };
    let got = match res {
        Err(ICPError::SourcePointCloudEmpty) => 1,
        Err(ICPError::TargetPointCloudEmpty) => 2,
        Err(ICPError::IterationNumIsZero) => 3,
        Err(ICPError::MSEIntervalThreshold) => 4,
        Err(ICPError::MSEAbsoluteThreshold) => 5,
        _ => 0,
    };
    e.cover(&format!("reason {want}"));
    e.require("the earliest applicable error, and none for valid input", E::B::k(want == got));
    e.require("invalid input does no work", E::B::k(want == 0 || ran == 0));
}

/// builder calls in any order, seen through the registrations they configure
fn builder<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
{
    let len = e.param("len") as usize;
    let thr = thr(e);
    #[derive(Clone)]
    struct Model<S> {
        kd: bool,
        iters: usize,
        abs: Option<S>,
        int: Option<S>,
    }
    let mut all = vec![(ICPConfiguration::<E::S>::builder(), Model { kd: false, iters: 20, abs: None, int: None })];
    for i in 0..len {
        let (b, mut m) = all[i].clone();
        let b = match e.choose(&format!("call {i}"), 8) {
            k @ (0 | 1) => {
                m.kd = k == 1;
                b.with_kd_tree(m.kd)
            }
            k @ (2 | 3 | 7) => {
                m.iters = [1, 3, 0, 0, 0, 300][k - 2];
                b.with_max_iterations(m.iters)
            }
            4 => {
                m.abs = None;
                b.with_absolute_mse_threshold(None)
            }
            5 => {
                m.abs = Some(e.input(&format!("abs{i}"), &thr));
                b.with_absolute_mse_threshold(m.abs)
            }
            _ => {
                m.int = Some(e.input(&format!("int{i}"), &thr));
                b.with_mse_interval_threshold(m.int.unwrap())
            }
        };
        all.push((b, m));
    }
    // earlier builders stay as they were
    let (b, m) = all[if e.param("any") == 1 { e.choose("builder", len + 1) } else { len }].clone();
    let conf = b.build();
    // two arbitrary alignments, then errors too far apart to converge
    let fixed = |k: usize| E::S::of_q(&qi(100 + 50 * k as i64));
    let one = E::S::of_q(&qi(1));
    let g = range(1, 16, -2);
    let outs: Vec<Rigid<E::S>> = (0..302).map(|k| (vec![one], vec![if k < 2 { e.input(&format!("t{k}"), &g) } else { fixed(k) }])).collect();
    let errs: Vec<E::Q> = outs.iter().map(|o| e.q(o.1[0])).map(|t| t.mul(&t)).collect();
    let zero = Point::<E::S, 1>::from([E::S::of_q(&qi(0))]);
    start(outs.clone());
    let res = icp::<E::S, 1>(&[zero], &[zero], conf.clone());
    let ran = calls::<E::S>().len();
    let qabs = m.abs.map(|x| e.q(x));
    let mut expect = None;
    for i in 0..m.iters {
        let mut conv = E::B::k(false);
        if i > 0 {
            let d = errs[i].sub(&errs[i - 1]);
            let within = |t: &E::Q| d.lt(t).and(&E::Q::zero().sub(&d).lt(t));
            conv = match m.int {
                Some(t) => {
                    let t = e.q(t);
                    within(&t)
                }
                None => {
                    // one hundredth, in whatever precision
                    let (lo, hi) = (E::Q::k(qr(9999, 1000000)), E::Q::k(qr(10001, 1000000)));
                    let c = within(&lo).or(&within(&hi).not());
                    e.assume(c);
                    within(&lo)
                }
            };
        }
        if let Some(t) = &qabs {
            conv = conv.or(&errs[i].lt(t));
        }
        if e.decide(&conv) {
            expect = Some(i);
            break;
        }
    }
    match (&res, expect) {
        (Ok(s), Some(i)) => {
            e.cover("converged");
            e.require("converges when the configured thresholds say so", E::B::k(s.iteration_num == i && ran == i + 1));
        }
        (Err(ICPError::AlrogithmDidNotConverge), None) => {
            e.cover("gave up");
            e.require("runs the configured number of iterations", E::B::k(ran == m.iters));
        }
        _ => e.require("follows the configured thresholds and limit", E::B::k(false)),
    }
    // the search method shows where two targets are equally near
    let pt = |k: i64| Point::<E::S, 1>::from([E::S::of_q(&qi(k))]);
    let mut seen = vec![];
    let int = m.int.unwrap_or_else(|| AsPrimitive::<E::S>::as_(0.01f32));
    for c in [conf, config_kd_last(m.kd, m.iters, m.abs, int)] {
        start(outs.clone());
        let r = icp::<E::S, 1>(&[pt(0)], &[pt(-1), pt(1)], c);
        let k = calls::<E::S>();
        let mb: Vec<E::S> = k.iter().map(|c| c.mean_b[0]).collect();
        let mb = qv(e, &mb);
        seen.push((r.is_ok(), mb));
    }
    let eq = E::B::k(seen[0].0 == seen[1].0 && seen[0].1.len() == seen[1].1.len());
    let eq = eq.and(&same(&seen[0].1, &seen[1].1));
    e.require("the same search method as when set last", eq);
    let dbg = |k: bool| format!("{:?}", b.with_kd_tree(k).build());
    e.require("the search method is recorded", E::B::k(dbg(true) != dbg(false)));
}
fn config_kd_last<S: 'static + Copy>(kd: bool, iters: usize, abs: Option<S>, int: S) -> ICPConfiguration<S>
where
    f32: AsPrimitive<S>,
{
    ICPConfiguration::builder()
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs)
        .with_mse_interval_threshold(int)
        .with_kd_tree(kd)
        .build()
}

macro_rules! stubbed {
    ($(fn $name:ident [$($f:literal),* $(,)?] = $body:path;)*) => {$(
        pub fn $name() -> Harness {
            fn run<E: Env>(e: &mut E)
            where
                E::S: Stubbed,
                usize: AsPrimitive<E::S>,
                f32: AsPrimitive<E::S>,
                IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
                IsometryAbstractor<E::S, 4>: AbstractIsometry<E::S, 4, RotType = Rotation<E::S, 4>>,
            {
                $body(e)
            }
            fn nat32(_: &mut NatEnv<f32>) {}
            fn nat(e: &mut NatEnv<f64>) {
                let mut x = NatEnv::<Nf>::new(e.case.clone());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut x)));
                e.failed = x.failed;
                e.log = x.log;
                e.checked = x.checked;
                if let Err(p) = r {
                    std::panic::resume_unwind(p);
                }
            }
            Harness { name: stringify!($name), sym: run::<SymEnv>, f64: nat, f32: nat32, funcs: &[$($f),*] }
        }
    )*
    pub fn list() -> Vec<Harness> { vec![$($name()),*] }
    };
}
fn iteration1<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
{
    iteration::<E, 1>(e)
}
fn iteration4<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 4>: AbstractIsometry<E::S, 4, RotType = Rotation<E::S, 4>>,
{
    iteration::<E, 4>(e)
}
fn tree1<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 1>: AbstractIsometry<E::S, 1, RotType = Rotation<E::S, 1>>,
{
    tree_or_not::<E, 1>(e)
}
fn tree4<E: Env>(e: &mut E)
where
    E::S: Stubbed,
    usize: AsPrimitive<E::S>,
    f32: AsPrimitive<E::S>,
    IsometryAbstractor<E::S, 4>: AbstractIsometry<E::S, 4, RotType = Rotation<E::S, 4>>,
{
    tree_or_not::<E, 4>(e)
}
stubbed! {
    fn icp_iteration_1d ["icp_iteration", "get_rotation_matrix_and_centroids", "calculate_mse", "outer_product", "find_nearest_neighbour_naive", "calculate_point_cloud_center"] = iteration1;
    fn icp_iteration_4d ["icp_iteration", "get_rotation_matrix_and_centroids", "calculate_mse", "outer_product", "find_nearest_neighbour_naive", "calculate_point_cloud_center"] = iteration4;
    fn icp_history ["icp", "icp_iteration"] = history;
    fn icp_tree_1d ["icp", "icp_iteration", "KDTree::from", "KDTree::nearest", "find_nearest_neighbour_naive"] = tree1;
    fn icp_tree_4d ["icp", "icp_iteration", "KDTree::from", "KDTree::nearest", "find_nearest_neighbour_naive"] = tree4;
    fn icp_guards ["icp", "ICPConfigurationBuilder"] = guards;
    fn icp_builder ["ICPConfigurationBuilder", "icp"] = builder;
}

const B: &str = "all clouds of n source and m target points with coordinates in [-8, 8]; the alignment step returns an arbitrary transform; float-exact in f64 for multiples of 1/4";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    let base = |h: Harness, p: Vec<(&'static str, i64)>, b: &str| Inst::new(h, p, b).nat(&["f64"]).opt(|o| {
        o.mant = 53;
        o.merge_minmax = true;
    });
    match id {
        "C20" => v.push(base(icp_guards(), vec![], "0, 1 or 2 points in each cloud, iteration limit 0, 1 or 2, each threshold any number in [-4, 4], NaN or infinite, or absent").covers(&["reason 0", "reason 1", "reason 2", "reason 3", "reason 4", "reason 5"])),
        "C21" => {
            let i = |h: Harness, n: i64, m: i64, kd: i64, rot: i64| base(h, vec![("n", n), ("m", m), ("kd", kd), ("rot", rot)], B);
            v.push(i(icp_iteration_1d(), 1, 1, 0, 1).covers(&["converged", "not yet"]));
            v.push(i(icp_iteration_1d(), 2, 2, 0, 0).covers(&["converged", "not yet"]));
            v.push(i(icp_iteration_1d(), 2, 2, 1, 0));
            v.push(i(icp_iteration_4d(), 1, 1, 0, 1).covers(&["converged", "not yet"]));
            v.push(i(icp_iteration_4d(), 2, 1, 0, 0));
            v.push(i(icp_iteration_4d(), 1, 2, 0, 0));
            v.push(i(icp_iteration_1d(), 3, 2, 0, 0));
            v.push(i(icp_iteration_1d(), 2, 3, 0, 0));
            v.push(i(icp_iteration_4d(), 2, 2, 0, 0));
            let more = |h: Harness, n: i64, m: i64, kd: i64, rot: i64, given: i64, givena: i64| {
                let mut x = i(h, n, m, kd, rot);
                x.bounds += GIVEN;
                x.bounds += "; `givena` further source and current points are concrete";
                x.params.extend([("given", given), ("seed", given + givena), ("span", 8), ("at", given / 2), ("givena", givena)]);
                x
            };
            for (scale, kd) in [(20, 0), (-20, 1), (-10, 0), (10, 1)] {
                for mut x in [i(icp_iteration_1d(), 2, 1, 0, 1), i(icp_iteration_1d(), 1, 2, kd, 0), more(icp_iteration_4d(), 0, 0, kd, 0, 5, 3)] {
                    x.bounds += SCALE;
                    x.params.push(("scale", scale));
                    v.push(x);
                }
            }
            v.push(more(icp_iteration_1d(), 1, 0, 0, 0, 6, 4));
            v.push(more(icp_iteration_4d(), 1, 0, 0, 0, 8, 4));
            v.push(more(icp_iteration_4d(), 0, 0, 1, 1, 12, 9));
            if t {
                v.push(more(icp_iteration_4d(), 1, 0, 1, 0, 12, 20).secs(900));
                v.push(more(icp_iteration_1d(), 1, 1, 1, 0, 8, 8).secs(900));
                v.push(i(icp_iteration_1d(), 3, 3, 1, 1).secs(900));
                v.push(i(icp_iteration_1d(), 5, 2, 0, 1).secs(900));
                v.push(i(icp_iteration_4d(), 2, 2, 1, 1).secs(900));
                v.push(i(icp_iteration_4d(), 3, 2, 0, 0).secs(900));
            }
        }
        "C22" => {
            let i = |n: i64, m: i64, k: i64, abs: i64, kd: i64| base(icp_history(), vec![("n", n), ("m", m), ("k", k), ("abs", abs), ("kd", kd)], B);
            v.push(i(1, 1, 1, 1, 0).covers(&["never converged", "converged at 0"]));
            v.push(i(1, 1, 4, 1, 0).covers(&["never converged", "converged at 0", "converged at 3"]));
            v.push(i(1, 1, 5, 0, 0).covers(&["never converged", "converged at 1", "converged at 4"]));
            v.push(i(2, 1, 2, 1, 0).covers(&["never converged", "converged at 0", "converged at 1"]));
            v.push(i(1, 2, 2, 1, 0).covers(&["never converged", "converged at 0", "converged at 1"]));
            v.push(i(1, 2, 2, 1, 1));
            v.push(i(1, 1, 8, 1, 0).covers(&["never converged", "converged at 7"]));
            v.push(i(2, 2, 2, 1, 0));
            v.push(i(1, 2, 3, 1, 0));
            v.push(i(1, 1, 24, 1, 0).covers(&["never converged", "converged at 23"]));
            let more = |n: i64, m: i64, k: i64, kd: i64, given: i64, givena: i64| {
                let mut x = i(n, m, k, 1, kd);
                x.bounds += GIVEN;
                x.bounds += "; `givena` further source points are concrete";
                x.params.extend([("given", given), ("seed", given + givena), ("span", 8), ("at", given / 2), ("givena", givena)]);
                x
            };
            for (scale, kd) in [(20, 0), (-20, 1), (-10, 0), (10, 1)] {
                for mut x in [i(1, 1, 3, 1, kd), i(2, 1, 2, 1, kd)] {
                    x.bounds += SCALE;
                    x.params.push(("scale", scale));
                    v.push(x);
                }
            }
            v.push(more(1, 0, 2, 0, 4, 0));
            v.push(more(0, 0, 2, 1, 3, 2));
            for (k, fix, kd) in [(12, 10, 1), (70, 68, 0), (132, 130, 1), (300, 298, 0)] {
                let mut x = more(0, 0, k, kd, 3, 2).opt(|o| o.max_decisions = 20000);
                x.bounds += "; the first `fix` alignments are concrete";
                x.params.push(("fix", fix));
                v.push(x);
            }
            if t {
                v.push(more(0, 0, 3, 0, 5, 3).secs(900));
                v.push(more(1, 0, 3, 1, 5, 0).secs(900));
                v.push(i(1, 1, 60, 1, 0).secs(900));
                v.push(i(2, 2, 3, 1, 1).secs(900));
                v.push(i(1, 3, 3, 1, 0).secs(900));
                v.push(i(3, 1, 5, 1, 0).secs(900));
            }
        }
        "C23" => {
            let i = |h: Harness, n: i64, m: i64, k: i64| base(h, vec![("n", n), ("m", m), ("k", k)], B);
            v.push(i(icp_tree_1d(), 1, 2, 2).covers(&["both succeed", "both fail"]));
            v.push(i(icp_tree_1d(), 1, 3, 1).covers(&["both succeed", "both fail"]));
            v.push(i(icp_tree_1d(), 2, 2, 1).covers(&["both succeed", "both fail"]));
            v.push(i(icp_tree_4d(), 1, 2, 1).covers(&["both succeed", "both fail"]));
            v.push(i(icp_tree_1d(), 1, 3, 2));
            let more = |h: Harness, n: i64, m: i64, k: i64, given: i64, givena: i64| {
                let mut x = i(h, n, m, k);
                x.bounds += GIVEN;
                x.bounds += "; `givena` further source points are concrete";
                x.params.extend([("given", given), ("seed", given + givena), ("span", 8), ("at", given / 2), ("givena", givena)]);
                x
            };
            for scale in [20, -20] {
                for mut x in [i(icp_tree_1d(), 1, 2, 2), more(icp_tree_4d(), 0, 0, 1, 6, 2)] {
                    x.bounds += SCALE;
                    x.params.push(("scale", scale));
                    v.push(x);
                }
            }
            v.push(more(icp_tree_1d(), 1, 0, 1, 6, 0));
            v.push(more(icp_tree_1d(), 0, 0, 2, 6, 3));
            v.push(more(icp_tree_4d(), 0, 0, 2, 8, 3));
            v.push(more(icp_tree_4d(), 1, 0, 1, 4, 1));
            if t {
                v.push(more(icp_tree_4d(), 0, 0, 3, 12, 3).secs(900));
                v.push(more(icp_tree_4d(), 1, 0, 1, 8, 2).secs(900));
                v.push(more(icp_tree_4d(), 1, 0, 2, 12, 2).secs(900));
                v.push(i(icp_tree_4d(), 1, 3, 1).secs(900));
                v.push(i(icp_tree_1d(), 1, 4, 1).secs(900));
                v.push(i(icp_tree_1d(), 2, 3, 2).secs(900));
                v.push(i(icp_tree_4d(), 2, 3, 1).secs(900));
                v.push(i(icp_tree_4d(), 1, 4, 1).secs(900));
            }
        }
        "C29" => {
            let i = |len: i64, any: i64| base(icp_builder(), vec![("len", len), ("any", any)], "every sequence of len builder calls with arguments true / false, 1 / 3 / 300 iterations, no or any absolute threshold in [1/64, 64], any interval threshold in [1/64, 64]; any: an earlier builder of the chain is observed");
            v.push(i(0, 0).covers(&["converged", "gave up"]));
            v.push(i(1, 1).covers(&["converged", "gave up"]));
            v.push(i(2, 1).covers(&["converged", "gave up"]));
            v.push(i(3, 0).covers(&["converged", "gave up"]));
            if t {
                v.push(i(4, 0).secs(3000));
            }
        }
        _ => {}
    }
}
