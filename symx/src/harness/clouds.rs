//! Point clouds: voxel downsampling, centre, transforms, generation.
use super::*;
use mapping_algorithms::point_clouds::*;
use nalgebra::{Isometry, Quaternion, Rotation2, Rotation3, Translation, Unit, UnitComplex, UnitQuaternion};
use num_traits::AsPrimitive;

/// integer part towards minus infinity of a/v, v > 0 (forks over the values)
pub fn cell<E: Env>(e: &mut E, a: &E::Q, v: &E::Q, max: i64) -> i64 {
    for k in -max..max {
        let (lo, hi) = (v.scale(&qi(k)), v.scale(&qi(k + 1)));
        let c = lo.le(a).and(&a.lt(&hi));
        if e.decide(&c) {
            return k;
        }
    }
    max
}

fn voxel<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    let n = e.param("n") as usize;
    let r = e.param("r");
    // far: the first point lies that many cells out, beyond the range of 32-bit indices
    let far = qi(e.param("far"));
    let near_ = grid(r, -4);
    let away = Spec { lo: &far - qi(r), hi: &far + qi(r), gran: if e.param("far").abs() < 1 << 16 { -4 } else { 0 }, int: false };
    let pts: Vec<Point<E::S, N>> = match e.param("given") {
        0 => (0..n).map(|i| point(e, &format!("p{i}"), if i < n - 1 || n == 1 { &away } else { &near_ })).collect(),
        _ => cloud(e, "p", n, &near_, false),
    };
    let n = pts.len();
    // the cells are judged in units of 2^scale
    let u = unit(e);
    let back = qi(1) / &u;
    let q: Vec<Vec<E::Q>> = qps(e, &pts).iter().map(|p| p.iter().map(|c| c.scale(&back)).collect()).collect();
    let (num, den) = (e.param("num"), e.param("den"));
    let size = if num == 0 {
        // a symbolic voxel size
        let spec = scaled(e, &Spec { lo: qr(1, 1), hi: qi(3), gran: -2, int: false });
        e.input("size", &spec)
    } else {
        E::S::of_q(&(qr(num, den) * &u))
    };
    let qsize = e.q(size).scale(&back);
    let out = downsample_point_cloud_voxel::<E::S, E::S, N>(&pts, size);
    let out: Vec<Vec<E::Q>> = qps(e, &out).iter().map(|p| p.iter().map(|c| c.scale(&back)).collect()).collect();
    // the cells, by definition
    let max = if num == 0 { r + 1 } else { (r * den) / num + 2 };
    let mut keys: Vec<Vec<i64>> = vec![];
    for (i, p) in q.iter().enumerate() {
        // cell indices relative to the far cell
        let rel = i < n - 1 || n == 1;
        let off = if rel { far.clone() } else { qi(0) };
        let k = p.iter().map(|c| cell(e, &c.sub(&E::Q::k(off.clone())), &qsize, max) + if rel { e.param("far") * den.max(1) / num.max(1) } else { 0 }).collect();
        keys.push(k);
    }
    let mut groups: Vec<Vec<i64>> = keys.clone();
    groups.sort();
    groups.dedup();
    e.cover(&format!("{} voxels", groups.len()));
    e.require("one point per occupied voxel", E::B::k(out.len() == groups.len()));
    let tol = e.tol(r as f64 * 4.0 + e.param("far").abs() as f64 * 8.0);
    for g in &groups {
        let mem: Vec<&Vec<E::Q>> = (0..n).filter(|i| &keys[*i] == g).map(|i| &q[i]).collect();
        let mean: Vec<E::Q> = (0..N).map(|k| sum(mem.iter().map(|p| p[k].clone())).scale(&qr(1, mem.len() as i64))).collect();
        let hit = E::B::any(out.iter().map(|o| near(o, &mean, &tol)).collect());
        e.require("the mean of each voxel's points is returned", hit);
    }
}
/// points that start a cell, for any integer voxel size
fn voxel_multiples<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    let size = e.input("size", &ints(2, 100));
    let cells: Point<E::S, N> = point(e, "cell", &ints(-9, 9));
    let start = cells.map(|k| k * size);
    let one = E::S::of_q(&qi(1));
    let next = start.map(|x| x + one);
    let (qs, qn) = (qp(e, &start), qp(e, &next));
    let pts = [Point::from(start), Point::from(next)];
    let out = downsample_point_cloud_voxel::<E::S, E::S, N>(&pts, size);
    let out = qps(e, &out);
    e.require("one point per occupied voxel", E::B::k(out.len() == 1));
    if out.len() == 1 {
        let mean: Vec<E::Q> = qs.iter().zip(&qn).map(|(a, b)| a.add(b).scale(&qr(1, 2))).collect();
        e.require("the mean of each voxel's points is returned", same(&out[0], &mean));
    }
}
/// points around two cells of size 2^scale that lie far apart along one axis and are neighbours along the others
fn voxel_pair<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    const FAR: [u32; 12] = [0, 7, 8, 10, 12, 15, 16, 20, 21, 24, 31, 32];
    let k = e.choose("axis", N);
    let far = 1i64 << FAR[e.choose("far", FAR.len())];
    let far = if e.choose("sign", 2) == 1 { -far } else { far };
    let side = e.choose("side", 3) as i64 - 1;
    let a: Point<E::S, N> = point(e, "a", &Spec { lo: qi(-1), hi: qi(0), gran: -2, int: false });
    let u = unit(e);
    let shift: [E::S; N] = std::array::from_fn(|j| E::S::of_q(&(qi(if j == k { far } else { side }) * &u)));
    let b: Point<E::S, N> = Point::from(std::array::from_fn(|j| a[j] + shift[j]));
    let size = E::S::of_q(&u);
    let out = downsample_point_cloud_voxel::<E::S, E::S, N>(&[a, b], size);
    let (qa, qb, out) = (qp(e, &a), qp(e, &b), qps(e, &out));
    e.require("one point per occupied voxel", E::B::k(out.len() == 2));
    for p in [&qa, &qb] {
        e.require("the mean of each voxel's points is returned", is_in(p, &out));
    }
}
fn centre<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "p", n, &grid(1000, -8), false);
    let n = pts.len();
    let q = qps(e, &pts);
    let c = calculate_point_cloud_center::<E::S, N>(&pts);
    let c = qp(e, &c);
    if n == 0 {
        e.require("the centre of nothing is the origin", same(&c, &vec![E::Q::zero(); N]));
        return;
    }
    let tol = tol(e, 1000.0 * n as f64);
    for k in 0..N {
        let s = sum(q.iter().map(|p| p[k].clone()));
        e.require("centre times count is the sum", c[k].scale(&qi(n as i64)).near(&s, &tol));
        let t = E::Q::k(tol.clone());
        let above = E::B::any(q.iter().map(|p| p[k].le(&c[k].add(&t))).collect());
        let below = E::B::any(q.iter().map(|p| c[k].le(&p[k].add(&t))).collect());
        e.require("within the extents", above.and(&below));
    }
}

fn check_transformed<E: Env, const N: usize>(e: &mut E, q: &[Vec<E::Q>], out: Vec<Vec<E::Q>>, m: &[Vec<E::Q>], t: &[E::Q]) {
    e.require("one point per input point", E::B::k(out.len() == q.len()));
    let tol = tol(e, 4000.0);
    for (p, o) in q.iter().zip(&out) {
        for k in 0..N {
            let w = sum((0..N).map(|j| m[k][j].mul(&p[j]))).add(&t[k]);
            e.require("rotated point plus translation, in order", o[k].near(&w, &tol));
        }
    }
    e.cover("transformed");
}
fn transform2<E: Env>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, 2>(e, "p", n, &grid(100, -4), false);
    let q = qps(e, &pts);
    let angle = e.input("angle", &Spec { lo: qr(-31, 10), hi: qr(31, 10), gran: -10, int: false });
    let t = point::<E, 2>(e, "t", &grid(100, -4));
    let qt = qp(e, &t);
    let (c, s) = e.cos_sin(angle);
    let m = vec![vec![c.clone(), E::Q::zero().sub(&s)], vec![s, c]];
    let tr = Translation::from(t.coords);
    let out = if e.param("matrix") == 1 {
        transform_point_cloud(&pts, Isometry::<E::S, Rotation2<E::S>, 2>::from_parts(tr, Rotation2::new(angle)))
    } else {
        transform_point_cloud(&pts, Isometry::<E::S, UnitComplex<E::S>, 2>::from_parts(tr, UnitComplex::new(angle)))
    };
    let out = qps(e, &out);
    check_transformed::<E, 2>(e, &q, out, &m, &qt)
}
fn transform3<E: Env>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, 3>(e, "p", n, &grid(100, -4), false);
    let q = qps(e, &pts);
    let t = point::<E, 3>(e, "t", &grid(100, -4));
    let qt = qp(e, &t);
    let u = e.unit4("q");
    let rot: UnitQuaternion<E::S> = Unit::new_unchecked(Quaternion::new(u[0], u[1], u[2], u[3]));
    let u: Vec<E::Q> = u.iter().map(|x| e.q(*x)).collect();
    let [w, x, y, z] = [&u[0], &u[1], &u[2], &u[3]];
    let two = qi(2);
    let one = E::Q::int(1);
    let d = |a: &E::Q, b: &E::Q| one.sub(&a.mul(a).add(&b.mul(b)).scale(&two));
    let p = |a: &E::Q, b: &E::Q, c: &E::Q, f: &E::Q| a.mul(b).add(&c.mul(f)).scale(&two);
    let m_ = |a: &E::Q, b: &E::Q, c: &E::Q, f: &E::Q| a.mul(b).sub(&c.mul(f)).scale(&two);
    let m = vec![
        vec![d(y, z), m_(x, y, w, z), p(x, z, w, y)],
        vec![p(x, y, w, z), d(x, z), m_(y, z, w, x)],
        vec![m_(x, z, w, y), p(y, z, w, x), d(x, y)],
    ];
    let tr = Translation::from(t.coords);
    let out = if e.param("matrix") == 1 {
        transform_point_cloud(&pts, Isometry::<E::S, Rotation3<E::S>, 3>::from_parts(tr, rot.to_rotation_matrix()))
    } else {
        transform_point_cloud(&pts, Isometry::<E::S, UnitQuaternion<E::S>, 3>::from_parts(tr, rot))
    };
    let out = qps(e, &out);
    check_transformed::<E, 3>(e, &q, out, &m, &qt)
}
/// the identity changes nothing, exactly
fn identity<E: Env>(e: &mut E) {
    let n = e.param("n") as usize;
    let p2 = points::<E, 2>(e, "a", n, &grid(100, -4));
    let p3 = points::<E, 3>(e, "b", n, &grid(100, -4));
    let (q2_, q3) = (qps(e, &p2), qps(e, &p3));
    let o2 = transform_point_cloud(&p2, Isometry::<E::S, UnitComplex<E::S>, 2>::identity());
    let o3 = transform_point_cloud(&p3, Isometry::<E::S, UnitQuaternion<E::S>, 3>::identity());
    let (o2, o3) = (qps(e, &o2), qps(e, &o3));
    e.require("same number of points", E::B::k(o2.len() == n && o3.len() == n));
    for i in 0..n {
        e.require("identity changes nothing", same(&o2[i], &q2_[i]).and(&same(&o3[i], &q3[i])));
    }
}

fn generate<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let lo = point::<E, N>(e, "lo", &grid(1000, -4));
    let hi = point::<E, N>(e, "hi", &grid(1000, -4));
    let (ql, qh) = (qp(e, &lo), qp(e, &hi));
    for k in 0..N {
        let ok = ql[k].le(&qh[k]);
        e.assume(ok);
    }
    let ranges = || std::array::from_fn::<_, N, _>(|k| lo[k]..=hi[k]);
    let a = generate_point_cloud::<E::S, N>(n, ranges());
    let b = generate_point_cloud::<E::S, N>(n, ranges());
    let (a, b) = (qps(e, &a), qps(e, &b));
    e.require("the requested number of points", E::B::k(a.len() == n && b.len() == n));
    for p in &a {
        for k in 0..N {
            e.require("inside the range of its own axis", ql[k].le(&p[k]).and(&p[k].le(&qh[k])));
        }
    }
    for (x, y) in a.iter().zip(&b) {
        e.require("equal arguments give equal clouds", same(x, y));
    }
    e.cover("generated");
}

harness! {
    fn voxel1 ["downsample_point_cloud_voxel"] (e) { voxel::<E, 1>(e) }
    fn voxel_multiples1 ["downsample_point_cloud_voxel"] (e) { voxel_multiples::<E, 1>(e) }
    fn voxel_multiples2 ["downsample_point_cloud_voxel"] (e) { voxel_multiples::<E, 2>(e) }
    fn voxel_pair1 ["downsample_point_cloud_voxel"] (e) { voxel_pair::<E, 1>(e) }
    fn voxel_pair2 ["downsample_point_cloud_voxel"] (e) { voxel_pair::<E, 2>(e) }
    fn voxel_pair3 ["downsample_point_cloud_voxel"] (e) { voxel_pair::<E, 3>(e) }
    fn voxel4 ["downsample_point_cloud_voxel"] (e) { voxel::<E, 4>(e) }
    fn centre4 ["calculate_point_cloud_center"] (e) { centre::<E, 4>(e) }
    fn centre6 ["calculate_point_cloud_center"] (e) { centre::<E, 6>(e) }
    fn voxel2 ["downsample_point_cloud_voxel"] (e) { voxel::<E, 2>(e) }
    fn voxel3 ["downsample_point_cloud_voxel"] (e) { voxel::<E, 3>(e) }
    fn centre1 ["calculate_point_cloud_center"] (e) { centre::<E, 1>(e) }
    fn centre2 ["calculate_point_cloud_center"] (e) { centre::<E, 2>(e) }
    fn centre3 ["calculate_point_cloud_center"] (e) { centre::<E, 3>(e) }
    fn cloud_transform2 ["transform_point_cloud", "Isometry::transform_point"] (e) { transform2(e) }
    fn cloud_transform3 ["transform_point_cloud", "Isometry::transform_point"] (e) { transform3(e) }
    fn cloud_identity ["transform_point_cloud", "Isometry::transform_point"] (e) { identity(e) }
    fn generate1 ["generate_point_cloud"] (e) { generate::<E, 1>(e) }
    fn generate2 ["generate_point_cloud"] (e) { generate::<E, 2>(e) }
    fn generate3 ["generate_point_cloud"] (e) { generate::<E, 3>(e) }
}

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    match id {
        "C16" => {
            let i = |h: Harness, n: i64, r: i64, num: i64, den: i64| {
                Inst::new(h, vec![("n", n), ("r", r), ("num", num), ("den", den)], "coordinates in [-r, r] (all reals for the path analysis, float-exact for multiples of 1/16), voxel size num/den; num = 0: every voxel size in [1, 3]")
            };
            v.push(i(voxel2(), 0, 1, 1, 1).covers(&["0 voxels"]));
            v.push(i(voxel1(), 1, 6, 1, 4));
            v.push(i(voxel1(), 3, 2, 1, 1).covers(&["1 voxels", "2 voxels", "3 voxels"]));
            v.push(i(voxel1(), 2, 3, 0, 1).covers(&["1 voxels", "2 voxels"]));
            v.push(i(voxel1(), 4, 1, 1, 1).covers(&["1 voxels", "2 voxels"]));
            v.push(i(voxel1(), 2, 7, 3, 1).covers(&["1 voxels", "2 voxels"]));
            v.push(i(voxel2(), 2, 1, 3, 4).covers(&["1 voxels", "2 voxels"]));
            for h in [voxel_multiples1(), voxel_multiples2()] {
                v.push(Inst::new(h, vec![], "a point that starts a cell (index -9 to 9 per axis) and its neighbour one unit further, every integer voxel size in [2, 100]; inexact operations carry an error term of 2^-22 relative").abstracted().opt(|o| o.err = Some(22)));
            }
            for far in [1i64 << 33, -(1i64 << 32)] {
                let mut x = i(voxel1(), 3, 1, 1, 1).covers(&["2 voxels", "3 voxels"]).nat(&["f64"]);
                x.params.push(("far", far));
                v.push(x);
            }
            v.push(i(voxel3(), 2, 1, 2, 1).covers(&["1 voxels", "2 voxels"]));
            v.push(i(voxel4(), 1, 1, 1, 1).covers(&["1 voxels"]));
            for scale in [0, 12, -12] {
                for h in [voxel_pair1(), voxel_pair2(), voxel_pair3()] {
                    v.push(Inst::new(h, vec![("scale", scale)], "any point with coordinates in [-1, 0] and that point moved by one of a list of powers of two up to 2^32 along one axis and by -1, 0 or 1 along the others; voxel size 1; all times 2^scale").nat(&["f64"]));
                }
            }
            for (scale, far) in [(20, 0), (-20, 0), (6, 4096), (0, -4096), (-6, 30000)] {
                for h in [voxel1(), voxel2()] {
                    let mut x = i(h, 2, 1, 1, 1);
                    x.bounds += SCALE;
                    x.params.extend([("scale", scale), ("far", far)]);
                    v.push(x);
                }
            }
            let more = |h: Harness, n: i64, r: i64, num: i64, given: i64, span: i64| {
                let mut x = i(h, n, r, num, 1);
                x.bounds += GIVEN;
                x.params.extend([("given", given), ("seed", given + num), ("span", span), ("at", given / 2)]);
                x
            };
            v.push(more(voxel2(), 1, 4, 2, 12, 4));
            v.push(more(voxel2(), 1, 4, 2, 300, 4));
            v.push(more(voxel1(), 1, 6, 3, 20, 6));
            v.push(more(voxel3(), 1, 3, 3, 20, 3));
            v.push(more(voxel1(), 2, 4, 2, 5, 4));
            if t {
                v.push(more(voxel1(), 2, 20, 3, 60, 20).secs(900));
                v.push(more(voxel2(), 2, 4, 2, 40, 4).secs(900));
                v.push(more(voxel3(), 1, 6, 2, 60, 6).secs(900));
                v.push(i(voxel2(), 3, 2, 2, 1).secs(900));
                v.push(i(voxel1(), 5, 2, 1, 1).secs(900));
                v.push(i(voxel1(), 3, 4, 0, 1).secs(900));
                v.push(i(voxel3(), 3, 1, 2, 1).secs(900));
            }
        }
        "C17" => {
            let i = |h: Harness, n: i64| Inst::new(h, vec![("n", n)], "n points, coordinates in [-1000, 1000] (float-exact sums for multiples of 1/256)");
            for n in 0..6 {
                v.push(i(centre1(), n));
            }
            for n in 0..4 {
                v.push(i(centre2(), n));
                v.push(i(centre3(), n));
            }
            v.push(i(centre2(), 7));
            v.push(i(centre1(), 16));
            v.push(i(centre3(), 12));
            v.push(i(centre2(), 40));
            v.push(i(centre1(), 70));
            for (h, n, given) in [(centre1(), 3, 257), (centre2(), 2, 1030), (centre3(), 2, 600)] {
                let mut x = i(h, n);
                x.bounds += GIVEN;
                x.params.extend([("given", given), ("seed", given), ("span", 900), ("at", given / 3)]);
                v.push(x);
            }
            for (h, scale) in [(centre1(), 40), (centre2(), 40), (centre3(), -40), (centre4(), -40), (centre6(), 0), (centre2(), -70), (centre3(), 70)] {
                let mut x = i(h, 3);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
            }
            if t {
                v.push(i(centre3(), 60).secs(600));
                v.push(i(centre1(), 300).secs(600));
            }
        }
        "C18" => {
            let i = |h: Harness, n: i64, m: i64| Inst::new(h, vec![("n", n), ("matrix", m)], "n points and a translation with coordinates in [-100, 100], every rotation");
            for n in 0..4 {
                v.push(i(cloud_transform2(), n, n % 2));
                v.push(i(cloud_transform3(), n, (n + 1) % 2));
                v.push(i(cloud_identity(), n, 0));
            }
            v.push(i(cloud_transform2(), 3, 0).covers(&["transformed"]));
            v.push(i(cloud_transform3(), 3, 1).covers(&["transformed"]));
            v.push(i(cloud_transform2(), 20, 0));
            v.push(i(cloud_transform2(), 20, 1));
            v.push(i(cloud_transform3(), 8, 0));
            v.push(i(cloud_identity(), 40, 0));
            for (h, m) in [(cloud_transform2(), 0), (cloud_transform2(), 1), (cloud_transform3(), 0), (cloud_transform3(), 1)] {
                let mut x = i(h, 1, m);
                x.bounds += GIVEN;
                x.params.extend([("given", 1100), ("seed", 5), ("span", 90), ("at", 75)]);
                v.push(x);
            }
            for (h, scale) in [(cloud_transform2(), 30), (cloud_transform2(), -30), (cloud_transform3(), 20), (cloud_transform3(), -20)] {
                let mut x = i(h, 2, scale % 3 / 2);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
            }
            if t {
                v.push(i(cloud_transform2(), 60, 0).secs(600));
                v.push(i(cloud_transform3(), 30, 0).secs(600));
                v.push(i(cloud_transform3(), 8, 1).secs(600));
            }
        }
        "C19" => {
            let i = |h: Harness, n: i64| Inst::new(h, vec![("n", n)], "n points, every list of valid ranges with ends in [-1000, 1000]; the generator's draws are arbitrary points of the closed range");
            for n in 0..4 {
                v.push(i(generate1(), n));
                v.push(i(generate2(), n));
                v.push(i(generate3(), n));
            }
            v.push(i(generate3(), 8).covers(&["generated"]));
            v.push(i(generate2(), 20));
            v.push(i(generate1(), 70));
            v.push(i(generate1(), 300));
            v.push(i(generate2(), 140));
            for (h, scale) in [(generate1(), 40), (generate2(), -40), (generate3(), 20)] {
                let mut x = i(h, 2);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
            }
            if t {
                v.push(i(generate3(), 60).secs(600));
            }
        }
        _ => {}
    }
}
