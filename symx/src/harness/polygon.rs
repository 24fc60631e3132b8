//! Point in polygon.
use super::*;
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, is_single_point_in_polygon};

/// integers small enough for f32 to decide every off-boundary point correctly
fn spec() -> Spec {
    grid(64, 0)
}

/// the point is off the boundary, by at least the smallest distance possible on the lattice
fn off_boundary<E: Env>(e: &mut E, p: &[E::Q], poly: &[Vec<E::Q>]) {
    for ok in off_edges(e, p, poly) {
        e.assume(ok);
    }
}
fn off_edges<E: Env>(e: &mut E, p: &[E::Q], poly: &[Vec<E::Q>]) -> Vec<E::B> {
    let n = poly.len();
    let mut all = vec![];
    let u = unit(e);
    let one = E::Q::k(&u * &u);
    let zero = E::Q::zero();
    for i in 0..n {
        let (a, b) = (&poly[i], &poly[(i + 1) % n]);
        let c = cross(a, b, p);
        // on the horizontal strip of the edge (ends included)
        let strip = a[1].le(&p[1]).and(&p[1].le(&b[1])).or(&b[1].le(&p[1]).and(&p[1].le(&a[1])));
        let flat = a[1].eq(&b[1]);
        let far = one.le(&c).or(&one.le(&zero.sub(&c)));
        // on a horizontal edge: left of both ends or right of both
        let aside = p[0].lt(&a[0]).and(&p[0].lt(&b[0])).or(&a[0].lt(&p[0]).and(&b[0].lt(&p[0])));
        let ok = strip.not().or(&flat.not().and(&far)).or(&flat.and(&aside));
        all.push(ok);
    }
    all
}
/// even-odd rule with the other half-open convention and the ray going left
fn even_odd<E: Env>(e: &mut E, p: &[E::Q], poly: &[Vec<E::Q>]) -> bool {
    let n = poly.len();
    let zero = E::Q::zero();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (&poly[i], &poly[(i + 1) % n]);
        let a_below = a[1].le(&p[1]);
        let b_below = b[1].le(&p[1]);
        if e.decide(&a_below) {
            // upward crossing
            if !e.decide(&b_below) {
                let right = cross(a, b, p).lt(&zero);
                if e.decide(&right) {
                    inside = !inside;
                }
            }
        } else if e.decide(&b_below) {
            let right = zero.lt(&cross(a, b, p));
            if e.decide(&right) {
                inside = !inside;
            }
        }
    }
    inside
}

/// concrete polygons: concave, a comb with horizontal edges and a repeated vertex, a pentagram, a closed ring with
/// vertices on one line, two squares joined by an edge walked twice, a long zigzag; turned, and started anywhere
fn fixed<E: Env>(e: &mut E, which: i64) -> Vec<Point<E::S, 2>> {
    let u = unit(e);
    let long: Vec<(i64, i64)> = (0..40)
        .map(|i| match i {
            0..=29 => (2 * i - 29, if i % 2 == 0 { 3 } else { 15 - i % 7 }),
            _ => (29 - (i - 30) * 6, -4 - (i % 2) * 2),
        })
        .collect();
    // 120 vertices along a flat base, then a saw of 20 back to its start
    let saw: Vec<(i64, i64)> = (0..140)
        .map(|i| match i {
            0..=119 => (i - 60, -9),
            _ => (60 - (i - 120) * 6, if i % 2 == 0 { 8 } else { 14 }),
        })
        .collect();
    let v: &[(i64, i64)] = match which {
        8 => &saw,
        7 => &long,
        1 => &[(0, 0), (8, 0), (8, 8), (4, 2), (-2, 7)],
        2 => &[(0, 0), (12, 0), (12, 6), (10, 6), (10, 2), (8, 2), (8, 6), (6, 6), (6, 6), (6, 2), (4, 2), (4, 6), (0, 6)],
        3 => &[(0, 10), (6, -8), (-10, 3), (10, 3), (-6, -8)],
        4 => &[(-5, -5), (0, -5), (5, -5), (5, 0), (5, 5), (0, 3), (-5, 5), (-5, 0), (-5, -5)],
        5 => &[(0, 0), (4, 0), (4, 4), (8, 8), (8, 12), (12, 12), (12, 8), (8, 8), (4, 4), (0, 4)],
        6 => &[(0, 0), (3, 9), (6, 0), (9, 9), (12, 0), (15, 9), (18, 0), (21, 9), (24, 0), (27, 9), (30, -5), (0, -5)],
        _ => &[(0, 0), (1, 0), (1, 1), (0, 1)],
    };
    let (turn, first) = match e.param("plain") {
        0 => (e.choose("turn", 4), e.choose("first", 3) * v.len() / 3),
        k => ((k - 1) as usize, 0),
    };
    let back = e.choose("direction", 2) == 1;
    let mut w: Vec<(i64, i64)> = v
        .iter()
        .map(|&(x, y)| match turn {
            0 => (x, y),
            1 => (-y, x),
            2 => (-x, -y),
            _ => (y, -x),
        })
        .collect();
    w.rotate_left(first);
    if back {
        w.reverse();
    }
    w.iter().map(|(x, y)| Point::from([E::S::of_q(&(qi(*x) * &u)), E::S::of_q(&(qi(*y) * &u))])).collect()
}
/// moved by (dx, dy)
fn moved<E: Env>(e: &mut E, p: Vec<Point<E::S, 2>>) -> Vec<Point<E::S, 2>> {
    let d = [e.param("dx"), e.param("dy")];
    match d {
        [0, 0] => p,
        _ => p.iter().map(|p| Point::from([0, 1].map(|k: usize| p[k] + E::S::of_q(&qi(d[k]))))).collect(),
    }
}
fn single<E: Env>(e: &mut E)
where
    f32: num_traits::AsPrimitive<E::S>,
{
    let poly = match e.param("fixed") {
        0 => points::<E, 2>(e, "v", e.param("n") as usize, &spec()),
        k => fixed(e, k),
    };
    let poly = moved(e, poly);
    let n = poly.len();
    let p = point::<E, 2>(e, "p", &spec());
    let p = moved(e, vec![p])[0];
    let (qpoly, q) = (qps(e, &poly), qp(e, &p));
    if n >= 3 {
        off_boundary(e, &q, &qpoly);
    }
    let got = is_single_point_in_polygon::<E::S>(&p, &poly);
    if n < 3 {
        e.require("fewer than three vertices contain nothing", E::B::k(!got));
        return;
    }
    let want = even_odd(e, &q, &qpoly);
    e.cover(if want { "inside" } else { "outside" });
    e.require("even-odd answer", E::B::k(got == want));
}
fn batch<E: Env>(e: &mut E)
where
    f32: num_traits::AsPrimitive<E::S>,
{
    let m = e.param("m") as usize;
    let poly = match e.param("fixed") {
        0 => points::<E, 2>(e, "v", e.param("n") as usize, &spec()),
        k => fixed(e, k),
    };
    let poly = moved(e, poly);
    let n = poly.len();
    let pts = points::<E, 2>(e, "p", m, &spec());
    let mut pts = moved(e, pts);
    let qpoly = qps(e, &poly);
    // concrete points off the boundary, around the arbitrary ones
    let (given, at) = (e.param("given") as usize, e.param("at") as usize);
    let (mut state, mut company) = (7u64, vec![]);
    let u = unit(e);
    while company.len() < given {
        let mut draw = || {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((state >> 33) % 29) as i64 - 14
        };
        let p = Point::from([0, 1].map(|_: usize| E::S::of_q(&(qi(draw()) * &u))));
        let at = qp(e, &p);
        let mut off = true;
        for ok in off_edges(e, &at, &qpoly) {
            off &= e.decide(&ok);
        }
        if off {
            company.push(p);
        }
    }
    let rest = company.split_off(at.min(given));
    company.append(&mut pts);
    company.extend(rest);
    let (pts, m) = (company, m + given);
    let q = qps(e, &pts);
    if n >= 3 {
        for p in &q {
            off_boundary(e, p, &qpoly);
        }
    }
    let got = are_multiple_points_in_polygon::<E::S>(&pts, &poly);
    let Some(got) = got else {
        e.require("nothing only below three vertices", E::B::k(n < 3));
        return;
    };
    e.require("nothing below three vertices", E::B::k(n >= 3));
    e.require("one answer per point", E::B::k(got.len() == m));
    for (p, g) in q.iter().zip(got) {
        let want = even_odd(e, p, &qpoly);
        e.cover(if want { "inside" } else { "outside" });
        e.require("even-odd answer of the batch test", E::B::k(g == want));
    }
}

harness! {
    fn pip_single ["is_single_point_in_polygon", "does_ray_intersect_polygon_segment"] (e) { single(e) }
    fn pip_batch ["are_multiple_points_in_polygon", "is_single_point_in_polygon", "calculate_polygon_extents"] (e) { batch(e) }
}

const B: &str = "coordinates in [-64, 64]; the point is at least as far from every edge as distinct integer points allow (|cross product| >= 1), which covers all integer coordinates and all reals at that distance";

const BF: &str = "one of eight concrete polygons (concave, comb, pentagram, closed ring, squares joined by a doubled edge, zigzag, a zigzag of 40 vertices, 140 vertices with 120 of them on a straight base), turned by quarters, either direction, three starting vertices; the points as for arbitrary polygons";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    let io = ["inside", "outside"];
    match id {
        "C10" => {
            let i = |n: i64| Inst::new(pip_single(), vec![("n", n)], B).opt(|o| o.merge_minmax = true);
            for k in 1..7 {
                v.push(Inst::new(pip_single(), vec![("fixed", k)], BF).covers(&io).opt(|o| o.merge_minmax = true));
            }
            let with = |mut x: Inst, more: &[(&'static str, i64)]| {
                x.bounds += &format!("{SCALE}; moved by (dx, dy)");
                x.params.extend_from_slice(more);
                x.covers(&io)
            };
            let f = |k| Inst::new(pip_single(), vec![("fixed", k)], BF).opt(|o| o.merge_minmax = true);
            v.push(f(7).covers(&io));
            for plain in 1..5 {
                let mut x = f(8).covers(&io).secs(if t { 300 } else { 60 });
                x.bounds += "; one turn, one start";
                x.params.push(("plain", plain));
                v.push(x);
            }
            for (k, scale) in [(2, 20), (4, -20), (5, -40), (1, 40)] {
                v.push(with(f(k), &[("scale", scale)]));
                v.push(with(i(3), &[("scale", scale)]));
            }
            for (k, dx, dy) in [(1, 500, 500), (2, -500, 300), (5, 300, -500), (4, -400, -400), (3, 1000, 0), (6, 0, -1000)] {
                v.push(with(f(k), &[("dx", dx), ("dy", dy)]));
            }
            v.push(with(i(3), &[("dx", 200), ("dy", -300)]));
            for n in 0..3 {
                v.push(i(n));
            }
            v.push(i(3).covers(&io));
            v.push(i(4).covers(&io).secs(if t { 900 } else { 90 }));
            if t {
                v.push(i(5).covers(&io).secs(3000));
            }
        }
        "C11" => {
            let f = |n: i64, m: i64, f: i64| Inst::new(pip_batch(), vec![("n", n), ("m", m), ("fixed", f)], B).opt(|o| o.merge_minmax = true);
            let i = |n, m| f(n, m, 0);
            let with = |n, m, k, more: &[(&'static str, i64)]| {
                let mut x = f(n, m, k);
                x.bounds = format!("{}{SCALE}; moved by (dx, dy)", if k == 0 { B } else { BF });
                x.params.extend_from_slice(more);
                x.covers(&io)
            };
            v.push(with(0, 1, 7, &[]));
            v.push(with(0, 1, 8, &[("plain", 2)]));
            for (k, given, at) in [(1, 20, 20), (2, 70, 33), (5, 300, 280), (1, 520, 0)] {
                let mut x = f(0, 1, k).covers(&io).secs(if t { 900 } else { 40 });
                x.bounds = format!("{BF}; the arbitrary point is query `at` of a batch with `given` concrete ones");
                x.params.extend([("given", given), ("at", at)]);
                v.push(x);
            }
            for (k, scale) in [(2, 20), (4, -20), (5, -40), (1, 40)] {
                v.push(with(0, 1, k, &[("scale", scale)]));
            }
            for (k, dx, dy) in [(1, 500, 500), (2, -500, 300), (5, 300, -500), (4, -400, -400), (3, 1000, 0), (6, 0, -1000)] {
                v.push(with(0, 1, k, &[("dx", dx), ("dy", dy)]));
            }
            v.push(with(3, 1, 0, &[("dx", 200), ("dy", -300)]));
            v.push(with(3, 1, 0, &[("scale", -20)]));
            for n in 0..3 {
                v.push(i(n, 1));
            }
            v.push(i(3, 0));
            v.push(i(3, 1).covers(&io));
            for k in 1..7 {
                let mut x = f(0, 1, k).covers(&io);
                x.bounds = BF.into();
                v.push(x);
            }
            let mut x = f(0, 2, 1).covers(&io).secs(if t { 900 } else { 60 });
            x.bounds = BF.into();
            v.push(x);
            v.push(i(4, 1).covers(&io).secs(if t { 900 } else { 60 }));
            if t {
                let mut x = f(0, 3, 1).covers(&io).secs(900);
                x.bounds = BF.into();
                v.push(x);
                v.push(i(3, 2).covers(&io).secs(1500));
            }
        }
        _ => {}
    }
}
