//! Bresenham lines.
use super::*;
use mapping_algorithms::lines::plot_bresenham_line;
use num_traits::AsPrimitive;

/// start, end and signed differences per axis
type Ends<E, const N: usize> = (Point<<E as Env>::S, N>, Point<<E as Env>::S, N>, Vec<<E as Env>::Q>);

fn ends<E: Env, const N: usize>(e: &mut E, start: &Spec, delta: &Spec) -> Ends<E, N> {
    let s = point::<E, N>(e, "start", start);
    let d = point::<E, N>(e, "delta", delta);
    let end = Point::from(std::array::from_fn(|k| s[k] + d[k]));
    // the sum is exact (bounded lattice), natively as well
    let (qs, qd, qe) = (qp(e, &s), qp(e, &d), qp(e, &end));
    for k in 0..N {
        let ok = qe[k].eq(&qs[k].add(&qd[k]));
        e.assume(ok);
    }
    (s, end, qd)
}
/// largest absolute difference (forks)
fn longest<E: Env>(e: &mut E, d: &[E::Q]) -> E::Q {
    let zero = E::Q::zero();
    let abs: Vec<E::Q> = d
        .iter()
        .map(|x| {
            let neg = x.lt(&zero);
            if e.decide(&neg) {
                zero.sub(x)
            } else {
                x.clone()
            }
        })
        .collect();
    let mut m = abs[0].clone();
    for a in &abs[1..] {
        let lt = m.lt(a);
        if e.decide(&lt) {
            m = a.clone();
        }
    }
    m
}

/// the plotted line of a grid segment, checked against C13 (`ideal` false) or C14
fn grid_line<E: Env, const N: usize>(e: &mut E, line: Vec<Vec<E::Q>>, s: &[E::Q], end: &[E::Q], d: &[E::Q], ideal: bool) {
    let zero = E::Q::zero();
    let one = E::Q::int(1);
    let len = line.len() as i64;
    let m = longest::<E>(e, d);
    e.cover(&format!("length {len}"));
    if !ideal {
        e.require("one point more than the largest difference", m.eq(&E::Q::int(len - 1)));
        e.require("starts at the start point", same(&line[0], s));
        e.require("ends at the end point", same(&line[line.len() - 1], end));
        for w in line.windows(2) {
            for k in 0..N {
                let step = w[1][k].sub(&w[0][k]);
                // forwards or not at all
                let fwd = zero.lt(&d[k]).and(&step.eq(&one));
                let back = d[k].lt(&zero).and(&step.eq(&zero.sub(&one)));
                e.require("moves by at most one, never backwards", step.eq(&zero).or(&fwd).or(&back));
                let longest = m.eq(&d[k]).or(&m.eq(&zero.sub(&d[k])));
                // ties: every axis as long as the longest one moves as well (implied by the end points)
                e.require("moves by one along the longest axis", longest.not().or(&fwd).or(&back));
            }
        }
    } else {
        // m * (plotted - start) against i * delta
        for (i, p) in line.iter().enumerate() {
            for k in 0..N {
                let diff = p[k].sub(&s[k]).mul(&E::Q::int(len - 1)).sub(&d[k].scale(&qi(i as i64)));
                let lim = E::Q::int((len - 1).max(1));
                e.require("within one cell of the ideal line", diff.lt(&lim).and(&zero.sub(&lim).lt(&diff)));
            }
        }
    }
}

fn line<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    let d = e.param("d");
    let r = e.param("range");
    let (s, end, qd) = ends::<E, N>(e, &ints(-r, r), &ints(-d, d));
    if e.param("long") != 0 {
        // the longest axis is given
        let k = e.param("axis") as usize;
        let ok = qd[k].eq(&E::Q::int(e.param("long")));
        e.assume(ok);
        let (mid, around) = (e.param("mid"), e.param("around"));
        if around != 0 {
            for (j, x) in qd.iter().enumerate() {
                if j != k {
                    // one path per value
                    let near_ = (mid - around..=mid + around).any(|v| e.decide(&x.eq(&E::Q::int(v))));
                    e.assume(E::B::k(near_));
                }
            }
        }
    }
    let (qs, qe) = (qp(e, &s), qp(e, &end));
    let line = plot_bresenham_line::<E::S, E::S, N>(s, end);
    let line = qps(e, &line);
    let ideal = e.param("ideal") == 1;
    grid_line::<E, N>(e, line, &qs, &qe, &qd, ideal)
}
/// integer output type
fn line_int<E: Env, const N: usize, T: nalgebra::Scalar + Copy + Into<i64>>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
    E::S: AsPrimitive<T>,
{
    let d = e.param("d");
    let r = e.param("range");
    let lo = if e.param("unsigned") == 1 { d } else { -r };
    let (s, end, qd) = ends::<E, N>(e, &ints(lo, r), &ints(-d, d));
    let (qs, qe) = (qp(e, &s), qp(e, &end));
    let line = plot_bresenham_line::<E::S, T, N>(s, end);
    let line = line
        .iter()
        .map(|p| {
            p.coords
                .iter()
                .map(|c| {
                    let v: i64 = (*c).into();
                    E::Q::int(v)
                })
                .collect()
        })
        .collect();
    grid_line::<E, N>(e, line, &qs, &qe, &qd, false)
}
fn off_grid<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
{
    let d = e.param("d");
    let start = match e.param("start") {
        0 => 500,
        s => s,
    };
    let (s, end, qd) = match e.param("long") {
        0 => ends::<E, N>(e, &grid(start, -5), &grid(d, -5)),
        k => {
            // one axis is about that long
            let x = ends::<E, N>(e, &grid(start, -5), &grid(k.abs() + 1, -5));
            let axis = e.param("axis") as usize;
            for (j, q) in x.2.iter().enumerate() {
                let (lo, hi) = if j == axis { (k, k + 1) } else { (-d, d) };
                let ok = E::Q::int(lo).le(q).and(&q.le(&E::Q::int(hi)));
                e.assume(ok);
            }
            x
        }
    };
    let (qs, qe) = (qp(e, &s), qp(e, &end));
    let line = plot_bresenham_line::<E::S, E::S, N>(s, end);
    let line = qps(e, &line);
    let m = longest::<E>(e, &qd);
    let len = line.len() as i64;
    e.cover(&format!("length {len}"));
    let (k, k1) = (E::Q::int(len - 1), E::Q::int(len));
    e.require("integer part of the largest difference plus one", k.le(&m).and(&m.lt(&k1)));
    e.require("ends at the end point", same(&line[line.len() - 1], &qe));
    let short = m.lt(&E::Q::int(1));
    e.require("starts at the start point", short.or(&same(&line[0], &qs)));
}
/// off-grid ends, integer output: the coordinates are cut towards zero
fn off_grid_int<E: Env, const N: usize>(e: &mut E)
where
    usize: AsPrimitive<E::S>,
    E::S: AsPrimitive<i32>,
{
    let (r, d) = (e.param("range"), e.param("d"));
    let (s, end, qd) = ends::<E, N>(e, &grid(r, -5), &grid(d, -5));
    let (qs, qe) = (qp(e, &s), qp(e, &end));
    let line = plot_bresenham_line::<E::S, i32, N>(s, end);
    let m = longest::<E>(e, &qd);
    let len = line.len() as i64;
    e.cover(&format!("length {len}"));
    e.require("integer part of the largest difference plus one", E::Q::int(len - 1).le(&m).and(&m.lt(&E::Q::int(len))));
    let cut = |p: &Point<i32, N>, q: &[E::Q]| -> E::B {
        E::B::all(
            (0..N)
                .map(|k| {
                    let v = p[k] as i64;
                    let (lo, hi) = (E::Q::int(v - 1), E::Q::int(v + 1));
                    let above = if v > 0 { E::Q::int(v).le(&q[k]) } else { lo.lt(&q[k]) };
                    let below = if v < 0 { q[k].le(&E::Q::int(v)) } else { q[k].lt(&hi) };
                    above.and(&below)
                })
                .collect(),
        )
    };
    e.require("ends at the end point", cut(&line[line.len() - 1], &qe));
    let short = m.lt(&E::Q::int(1));
    e.require("starts at the start point", short.or(&cut(&line[0], &qs)));
}

harness! {
    fn off_grid1_i32 ["plot_bresenham_line"] (e) { off_grid_int::<E, 1>(e) }
    fn off_grid2_i32 ["plot_bresenham_line"] (e) { off_grid_int::<E, 2>(e) }
    fn off_grid3_i32 ["plot_bresenham_line"] (e) { off_grid_int::<E, 3>(e) }
    fn line1 ["plot_bresenham_line"] (e) { line::<E, 1>(e) }
    fn line2 ["plot_bresenham_line"] (e) { line::<E, 2>(e) }
    fn line3 ["plot_bresenham_line"] (e) { line::<E, 3>(e) }
    fn line4 ["plot_bresenham_line"] (e) { line::<E, 4>(e) }
    fn line6 ["plot_bresenham_line"] (e) { line::<E, 6>(e) }
    fn line2_i32 ["plot_bresenham_line"] (e) { line_int::<E, 2, i32>(e) }
    fn line2_u32 ["plot_bresenham_line"] (e) { line_int::<E, 2, u32>(e) }
    fn line2_i64 ["plot_bresenham_line"] (e) { line_int::<E, 2, i64>(e) }
    fn off_grid1 ["plot_bresenham_line"] (e) { off_grid::<E, 1>(e) }
    fn off_grid2 ["plot_bresenham_line"] (e) { off_grid::<E, 2>(e) }
    fn off_grid3 ["plot_bresenham_line"] (e) { off_grid::<E, 3>(e) }
}

const B: &str = "integer start coordinates of magnitude up to `range`, integer differences up to `d` per axis; every rounded operation carries an error term of 2^-22 relative";
const BO: &str = "coordinates in [-500, 500], differences up to `d`, all reals for the path analysis, float-exact for multiples of 1/32 (quotients with an error term of 2^-22 relative)";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    const R: i64 = 1 << 20;
    let i = |h: Harness, d: i64, ideal: i64| {
        Inst::new(h, vec![("d", d), ("range", R), ("ideal", ideal)], B).opt(|o| {
            o.err = Some(22);
            o.concretize_div = true
        })
    };
    let long = |h: Harness, k: i64, axis: i64, ideal: i64| {
        Inst::new(h, vec![("d", k.abs()), ("range", R), ("ideal", ideal), ("long", k), ("axis", axis)], "as above, with the difference along one axis fixed to `long`").opt(|o| {
            o.err = Some(22);
            o.concretize_div = true;
            o.max_decisions = 5000
        })
    };
    match id {
        "C13" | "C14" => {
            let x = (id == "C14") as i64;
            v.push(i(line1(), 4, x).covers(&["length 1", "length 5"]));
            v.push(i(line2(), 8, x).covers(&["length 1", "length 9"]));
            v.push(i(line3(), 4, x).covers(&["length 1", "length 5"]));
            v.push(i(line4(), 1, x).covers(&["length 1", "length 2"]));
            let at = |h: Harness, k: i64, axis: i64, mid: i64, around: i64| {
                let mut l = long(h, k, axis, x);
                l.params.extend([("mid", mid), ("around", around)]);
                l.bounds = "integer start coordinates of magnitude up to `range`, the difference along one axis fixed to `long`, the others within `around` of `mid`; every rounded operation carries an error term of 2^-22 relative".into();
                l
            };
            // lengths without exact ties at the threshold (multiples of N + 1 have them, which multiplies the paths)
            v.push(at(line2(), 25, 1, 0, 25));
            v.push(at(line2(), -20, 0, 0, 20));
            v.push(at(line2(), 64, 0, 0, 64));
            v.push(at(line2(), 61, 0, 30, 31));
            v.push(at(line2(), -58, 1, -29, 29));
            v.push(at(line2(), 200, 0, 0, 5));
            v.push(at(line2(), -260, 1, 159, 3));
            v.push(at(line2(), 131, 1, -129, 3));
            v.push(at(line3(), 11, 2, 5, 6));
            v.push(at(line3(), -41, 0, 14, 4));
            v.push(at(line4(), 7, 1, 3, 2));
            v.push(at(line4(), 7, 0, 3, 2));
            v.push(at(line4(), -6, 3, -3, 1));
            v.push(at(line4(), 3, 2, 1, 1));
            v.push(at(line6(), 5, 0, 3, 1));
            v.push(at(line6(), -4, 4, -2, 1));
            if x == 0 {
                for (h, u) in [(line2_i32(), 0), (line2_u32(), 1), (line2_i64(), 0)] {
                    v.push(Inst::new(h, vec![("d", 2), ("range", 4), ("unsigned", u)], "start coordinates up to 4, differences up to 2, integer output type").opt(|o| {
                        o.err = Some(22);
                        o.concretize_div = true
                    }));
                }
            }
            if t {
                v.push(i(line4(), 2, x).secs(900));
                v.push(i(line2(), 16, x).secs(1500));
                v.push(i(line3(), 6, x).secs(1500));
                for (k, axis) in [(110, 0), (-101, 1), (-130, 0)] {
                    v.push(at(line2(), k, axis, 0, k.abs()).secs(1500));
                }
                for mid in [0, 167, 250, 333, 499] {
                    v.push(at(line2(), 500, 0, mid, 2).secs(900));
                }
                v.push(at(line3(), 16, 2, 0, 16).secs(1500));
                v.push(at(line3(), -19, 1, 0, 19).secs(1500));
                v.push(at(line4(), 9, 3, 0, 4).secs(1500));
            }
        }
        "C15" => {
            let i = |h: Harness, d: i64| Inst::new(h, vec![("d", d)], BO).opt(|o| o.err = Some(22));
            let int = |h: Harness, r: i64, d: i64| Inst::new(h, vec![("range", r), ("d", d)], "start coordinates in [-range, range], differences up to `d`, otherwise as for float output; 32-bit integer output").opt(|o| o.err = Some(22));
            v.push(int(off_grid1_i32(), 3, 3).covers(&["length 1", "length 4"]));
            v.push(int(off_grid2_i32(), 1, 2).covers(&["length 1", "length 3"]));
            v.push(i(off_grid1(), 4).covers(&["length 1", "length 5"]));
            v.push(i(off_grid2(), 5).covers(&["length 1", "length 6"]));
            v.push(i(off_grid3(), 2).covers(&["length 1", "length 3"]));
            let more = |h: Harness, d: i64, p: &[(&'static str, i64)]| {
                let mut x = i(h, d).opt(|o| o.max_decisions = 5000);
                x.bounds = "start coordinates in [-start, start] (500 by default), differences up to `d`, except along `axis`, where it lies in [long, long + 1] if `long` is given; float-exact for multiples of 1/32 (quotients with an error term of 2^-22 relative)".into();
                x.params.extend_from_slice(p);
                x
            };
            v.push(more(off_grid1(), 3, &[("start", 100_000)]));
            v.push(more(off_grid2(), 2, &[("start", 100_000)]));
            for (long, axis) in [(20, 0), (-34, 1)] {
                v.push(more(off_grid2(), 1, &[("long", long), ("axis", axis)]));
            }
            for long in [63, 64, -65, 100, -129, 255, 260] {
                v.push(more(off_grid1(), 1, &[("long", long)]));
            }
            if t {
                v.push(int(off_grid2_i32(), 2, 3).secs(1500));
                v.push(int(off_grid3_i32(), 1, 1).secs(1500));
                v.push(i(off_grid2(), 6).secs(1500));
                v.push(i(off_grid3(), 4).secs(1500));
            }
        }
        _ => {}
    }
}
