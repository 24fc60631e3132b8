//! Convex hulls.
use super::*;
use crate::ck::IntScal;
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use mapping_algorithms::polygons::graham_scan;
use mapping_algorithms::polygons::jarvis_march;

/// lattice for which every orientation determinant is computed exactly in f32
fn spec() -> Spec {
    grid(512, -1)
}

/// hull of `q` must be `h` (None when degenerate); `strict`: no vertex lies on the segment between its neighbours
pub fn check_hull<E: Env>(e: &mut E, q: &[Vec<E::Q>], h: Option<Vec<Vec<E::Q>>>, strict: bool) {
    let n = q.len();
    let zero = E::Q::zero();
    let Some(h) = h else {
        e.cover("no hull");
        let mut v = vec![];
        for i in 0..n {
            for j in 0..i {
                for k in 0..j {
                    v.push(cross(&q[i], &q[j], &q[k]).eq(&zero));
                }
            }
        }
        e.require("absent only for collinear input", E::B::all(v));
        return;
    };
    e.cover(&format!("hull of {}", h.len()));
    e.require("at least three points", E::B::k(n >= 3 && h.len() >= 3));
    let m = h.len();
    for v in &h {
        e.require("vertices are input points", is_in(v, q));
    }
    for i in 0..m {
        for j in 0..i {
            e.require("vertices are distinct", same(&h[i], &h[j]).not());
        }
    }
    for p in q {
        e.require("starts at the lexicographically smallest point", lex_le(&h[0], p));
    }
    let mut turns = vec![];
    for i in 0..m {
        let c = cross(&h[i], &h[(i + 1) % m], &h[(i + 2) % m]);
        if strict {
            e.require("every turn is strictly clockwise", c.lt(&zero));
        } else {
            e.require("every turn is clockwise", c.le(&zero));
        }
        turns.push(c.lt(&zero));
    }
    e.require("not collinear", E::B::any(turns));
    for i in 0..m {
        let (a, b) = (&h[i], &h[(i + 1) % m]);
        for p in q {
            e.require("every point is inside", cross(a, b, p).le(&zero));
        }
        // collinear hull vertices must keep going in the same direction
        if !strict {
            let c = &h[(i + 2) % m];
            for p in q {
                e.require("every point on the boundary is a vertex", cross(a, b, p).eq(&zero).not().or(&is_in(p, &h)));
            }
            let dot = b[0].sub(&a[0]).mul(&c[0].sub(&b[0])).add(&b[1].sub(&a[1]).mul(&c[1].sub(&b[1])));
            let straight = cross(a, b, c).eq(&zero);
            e.require("no turning back", straight.not().or(&zero.lt(&dot)));
        }
    }
    if !strict {
        // once around: the smallest point is the only place where the lexicographic order turns upwards
        let ups: Vec<E::B> = (0..m).map(|i| lex_le(&h[i], &h[(i + 1) % m]).and(&lex_le(&h[i], &h[(i + m - 1) % m]))).collect();
        for (i, u) in ups.iter().enumerate() {
            if i > 0 {
                e.require("goes round once", u.not());
            }
        }
    }
}

/// sorts by insertion (forks)
fn order<E: Env>(e: &mut E, pts: &mut [Point<E::S, 2>]) {
    for i in 1..pts.len() {
        let mut j = i;
        while j > 0 {
            let (a, b) = (qp(e, &pts[j - 1]), qp(e, &pts[j]));
            if e.decide(&lex_le(&a, &b)) {
                break;
            }
            pts.swap(j - 1, j);
            j -= 1;
        }
    }
}
fn graham<E: Env>(e: &mut E)
where
    usize: num_traits::AsPrimitive<E::S>,
{
    let n = e.param("n") as usize;
    let sorted = e.param("sorted") == 1;
    let mut pts = cloud::<E, 2>(e, "p", n, &spec(), false);
    if sorted && pts.len() > n {
        order(e, &mut pts);
    }
    let n = pts.len();
    let q = qps(e, &pts);
    if sorted {
        for i in 1..n {
            let c = lex_le(&q[i - 1], &q[i]);
            e.assume(c);
        }
    }
    let h = graham_scan::<E::S, E::S>(&pts, sorted, None);
    let h = h.map(|h| qps(e, &h));
    check_hull(e, &q, h, true);
}
fn jarvis<E: Env>(e: &mut E)
where
    usize: num_traits::AsPrimitive<E::S>,
{
    let n = e.param("n") as usize;
    let pts = cloud::<E, 2>(e, "p", n, &spec(), false);
    let q = qps(e, &pts);
    let h = jarvis_march::<E::S, E::S>(&pts, None);
    let h = h.map(|h| qps(e, &h));
    check_hull(e, &q, h, false);
}

/// hull of a voxel-downsampled cloud, under different hash keys of the voxel map
fn hull_voxel<E: Env>(e: &mut E)
where
    usize: num_traits::AsPrimitive<E::S>,
{
    e.hash_keys(e.param("keys") as usize);
    let n = e.param("n") as usize;
    let r = e.param("r");
    let mut pts = given::<E, 2>(e.param("given") as usize, e.param("seed"), r / 2, false);
    for p in &mut pts {
        *p = Point::from(p.coords.map(|x| x + E::S::of_q(&qi(r / 2))));
    }
    let at = pts.len() / 2;
    let any = points::<E, 2>(e, "p", n, &range(0, r, -1));
    pts.splice(at..at, any);
    let n = pts.len();
    let q = qps(e, &pts);
    let size = E::S::of_q(&qi(e.param("size")));
    let qsize = e.q(size);
    let keys: Vec<Vec<i64>> = q.iter().map(|p| p.iter().map(|c| super::clouds::cell(e, c, &qsize, r)).collect()).collect();
    // the means must be exact in binary
    let exact = keys.iter().all(|k| [1, 2, 4].contains(&keys.iter().filter(|x| *x == k).count()));
    e.assume(E::B::k(exact));
    let d = downsample_point_cloud_voxel::<E::S, E::S, 2>(&pts, size);
    let d = qps(e, &d);
    let alg = e.param("alg");
    let h = match alg {
        0 => jarvis_march::<E::S, E::S>(&pts, Some(size)),
        a => graham_scan::<E::S, E::S>(&pts, a == 2, Some(size)),
    };
    let h = h.map(|h| qps(e, &h));
    if d.len() < n {
        e.cover("merged points");
    }
    check_hull(e, &d, h, alg != 0);
}

/// the hull of integer points is the hull of the same points as floats
fn hull_int<E: Env, T: IntScal<E::S>>(e: &mut E)
where
    usize: num_traits::AsPrimitive<E::S> + num_traits::AsPrimitive<T>,
{
    let n = e.param("n") as usize;
    let spec = ints(e.param("lo"), e.param("hi"));
    let (lo, step) = (e.param("lo"), (e.param("hi") - e.param("lo")) / 8);
    let mut pts = points::<E, 2>(e, "p", n, &spec);
    for p in given::<E, 2>(e.param("given") as usize, e.param("seed"), 4, false) {
        // concrete points all over the range
        let c: Vec<Q_> = qp(e, &p).iter().map(|x| x.concrete().unwrap_or_else(|| qi(0))).collect();
        pts.push(Point::from([0, 1].map(|k: usize| E::S::of_q(&((&c[k] + qi(4)) * qi(step) + qi(lo))))));
    }
    let sorted = e.param("alg") == 2;
    if sorted && pts.len() > n {
        order(e, &mut pts);
    }
    let n = pts.len();
    let q = qps(e, &pts);
    if sorted {
        for i in 1..n {
            let c = lex_le(&q[i - 1], &q[i]);
            e.assume(c);
        }
    }
    let ip: Vec<Point<T, 2>> = pts.iter().map(|p| Point::from([T::of_scal(p[0]), T::of_scal(p[1])])).collect();
    let (a, b) = match e.param("alg") {
        0 => (jarvis_march::<E::S, T>(&ip, None), jarvis_march::<E::S, E::S>(&pts, None)),
        _ => (graham_scan::<E::S, T>(&ip, sorted, None), graham_scan::<E::S, E::S>(&pts, sorted, None)),
    };
    let b = b.map(|h| qps(e, &h));
    let a = a.map(|h| h.iter().map(|p| Point::<E::S, 2>::from([p[0].as_(), p[1].as_()])).collect::<Vec<_>>());
    let a = a.map(|h| qps(e, &h));
    match (a, b) {
        (None, None) => e.cover("no hull"),
        (Some(a), Some(b)) => {
            e.cover(&format!("hull of {}", a.len()));
            let eq = E::B::k(a.len() == b.len()).and(&E::B::all(a.iter().zip(&b).map(|(x, y)| same(x, y)).collect()));
            e.require("same hull as for floats", eq);
        }
        _ => e.require("a hull for integers exactly when there is one for floats", E::B::k(false)),
    }
}

harness! {
    fn hull_u8 ["graham_scan", "jarvis_march", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { hull_int::<E, E::U8>(e) }
    fn hull_i8 ["graham_scan", "jarvis_march", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { hull_int::<E, E::I8>(e) }
    fn hull_u16 ["graham_scan", "jarvis_march", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { hull_int::<E, E::U16>(e) }
    fn hull_i32 ["graham_scan", "jarvis_march", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { hull_int::<E, E::I32>(e) }
    fn downsampled_hull ["graham_scan", "jarvis_march", "downsample_point_cloud_voxel", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { hull_voxel(e) }
    fn graham_hull ["graham_scan", "build_hull_segment", "calculate_determinant", "lex_sort"] (e) { graham(e) }
    fn jarvis_hull ["jarvis_march", "calculate_determinant"] (e) { jarvis(e) }
}

const B: &str = "coordinates: all reals in [-512, 512] for the path analysis, float-exact for multiples of 1/2";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    match id {
        "C06" => {
            let i = |n: i64, s: i64| Inst::new(graham_hull(), vec![("n", n), ("sorted", s)], B);
            let g = |n: i64, s: i64, given: i64, at: i64, span: i64| Inst::new(graham_hull(), vec![("n", n), ("sorted", s), ("given", given), ("seed", given), ("at", at), ("span", span)], &format!("{B}{GIVEN}"));
            for (given, at, span) in [(6, 0, 2), (9, 9, 3), (12, 5, 4), (30, 12, 5), (5, 2, 1), (70, 40, 3)] {
                v.push(g(1, 0, given, at, span));
                v.push(g(1, 1, given + 1, at, span));
            }
            v.push(g(2, 0, 3, 1, 2));
            if t {
                for s in 0..2 {
                    let mut x = g(1, s, 22, 11, 2).secs(900);
                    x.params.push(("shape", 8));
                    v.push(x);
                }
            }
            for (shape, given) in [(7, 8), (8, 12), (1, 30), (2, 20), (4, 40), (5, 35), (6, 25)] {
                for sorted in 0..2 {
                    let mut x = g(1, sorted, given, given / 2, 2);
                    x.params.push(("shape", shape));
                    v.push(x);
                }
            }
            for (scale, n) in [(30, 3), (-30, 3), (12, 3), (-12, 3)] {
                let mut x = i(n, 0).covers(&["no hull", "hull of 3"]);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
                let mut x = g(1, 0, 6, 2, 2);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
            }
            for n in 0..3 {
                v.push(i(n, 0));
            }
            v.push(i(3, 0).covers(&["no hull", "hull of 3"]));
            v.push(i(3, 1).covers(&["no hull", "hull of 3"]));
            v.push(i(4, 1).covers(&["no hull", "hull of 3", "hull of 4"]));
            v.push(i(4, 0).covers(&["no hull", "hull of 3", "hull of 4"]));
            if t {
                v.push(i(5, 1).covers(&["no hull", "hull of 3", "hull of 4", "hull of 5"]).secs(1500));
                v.push(i(6, 1).secs(1500));
                v.push(i(5, 0).secs(1500));
            }
        }
        "C07" => {
            let i = |n: i64| Inst::new(jarvis_hull(), vec![("n", n)], B);
            let g = |n: i64, given: i64, at: i64, span: i64| Inst::new(jarvis_hull(), vec![("n", n), ("given", given), ("seed", given), ("at", at), ("span", span)], &format!("{B}{GIVEN}"));
            for (given, at, span) in [(6, 0, 2), (9, 9, 3), (12, 5, 4), (20, 12, 5), (5, 2, 1), (7, 3, 1), (32, 20, 5)] {
                v.push(g(1, given, at, span));
            }
            v.push(g(2, 3, 1, 2));
            for (shape, given) in [(8, 8), (7, 6), (1, 16), (2, 12), (4, 20), (5, 14), (6, 10)] {
                let mut x = g(1, given, given / 2, 2);
                x.params.push(("shape", shape));
                v.push(x);
            }
            for (scale, n) in [(30, 3), (-30, 3), (12, 3), (-12, 3)] {
                let mut x = i(n).covers(&["no hull", "hull of 3"]);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
                let mut x = g(1, 6, 2, 2);
                x.bounds += SCALE;
                x.params.push(("scale", scale));
                v.push(x);
            }
            for n in 0..3 {
                v.push(i(n));
            }
            v.push(i(3).covers(&["no hull", "hull of 3"]));
            v.push(i(4).covers(&["no hull", "hull of 3", "hull of 4"]));
            if t {
                v.push(i(5).secs(3000));
            }
        }
        "C09" => {
            let i = |h: Harness, alg: i64, n: i64, lo: i64, hi: i64| {
                Inst::new(h, vec![("alg", alg), ("n", n), ("lo", lo), ("hi", hi)], "every integer coordinate in [lo, hi]; alg 0: Jarvis, 1: Graham, 2: Graham on sorted input")
            };
            for alg in [0, 1] {
                v.push(i(hull_u8(), alg, 3, 0, 255).covers(&["no hull", "hull of 3"]));
                v.push(i(hull_i8(), alg, 3, -128, 127).covers(&["no hull", "hull of 3"]));
                v.push(i(hull_u16(), alg, 3, 0, 65535).covers(&["hull of 3"]).nat(&["f64"]));
                v.push(i(hull_i32(), alg, 3, -(1 << 25), 1 << 25).covers(&["hull of 3"]).nat(&["f64"]));
            }
            v.push(i(hull_u8(), 0, 4, 0, 255).covers(&["hull of 3", "hull of 4"]));
            v.push(i(hull_u8(), 2, 4, 0, 255).covers(&["hull of 3", "hull of 4"]));
            let more = |h: Harness, alg: i64, n: i64, lo: i64, hi: i64, given: i64| {
                let mut x = i(h, alg, n, lo, hi);
                x.bounds += "; `given` further points are concrete, drawn by `seed` from a 9 by 9 grid over the range";
                x.params.extend([("given", given), ("seed", given + alg)]);
                x
            };
            for alg in 0..3 {
                v.push(more(hull_u8(), alg, 1, 0, 255, 10));
                v.push(more(hull_i8(), alg, 1, -128, 127, 6));
                v.push(more(hull_u16(), alg, 1, 0, 65535, 8).nat(&["f64"]));
                v.push(more(hull_i32(), alg, 1, -(1 << 25), 1 << 25, 12).nat(&["f64"]));
            }
            if t {
                for alg in 0..3 {
                    v.push(more(hull_u8(), alg, 2, 0, 255, 6).secs(600));
                    v.push(more(hull_i32(), alg, 1, -(1 << 25), 1 << 25, 60).nat(&["f64"]).secs(600));
                }
            }
        }
        "C08" => {
            let i = |alg: i64, n: i64, r: i64, size: i64, keys: i64| {
                Inst::new(downsampled_hull(), vec![("alg", alg), ("n", n), ("r", r), ("size", size), ("keys", keys)], "n points with coordinates in [0, r], voxel size given, voxels of 1, 2 or 4 points, each of the stated number of hash keys; alg 0: Jarvis, 1: Graham, 2: Graham told that the input is sorted").fresh()
            };
            let more = |alg: i64, n: i64, r: i64, given: i64, keys: i64| {
                let mut x = i(alg, n, r, 2, keys);
                x.bounds += "; `given` further points are concrete, drawn by `seed` from the integers in [0, r]";
                x.params.extend([("given", given), ("seed", given + alg)]);
                x
            };
            if t {
                for a in 0..3 {
                    v.push(more(a, 1, 8, 12, 2).secs(600));
                    v.push(more(a, 2, 6, 4, 2).secs(900));
                }
            }
            if !cfg!(feature = "std") {
                // ordered map: one order
                v.push(i(0, 4, 3, 2, 1).covers(&["merged points", "no hull", "hull of 3"]));
                v.push(i(2, 4, 3, 2, 1).covers(&["merged points", "no hull", "hull of 3"]));
                return;
            }
            for a in 0..3 {
                v.push(more(a, 1, 6, 6, 3));
                v.push(more(a, 1, 8, 10, 2));
                v.push(i(a, 3, 3, 2, 3).covers(&["merged points", "no hull", "hull of 3"]));
                v.push(i(a, 4, 3, 2, 2).covers(&["merged points", "no hull", "hull of 3"]));
            }
        }
        _ => {}
    }
}
