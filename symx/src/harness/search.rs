//! KD-tree, exhaustive nearest neighbour, extents.
use super::*;
use crate::explore::Inst;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use mapping_algorithms::polygons::calculate_polygon_extents;

fn spec() -> Spec {
    grid(64, -3)
}

/// nearest-neighbour query against a history of insertions
fn nearest_q<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "p", n, &spec(), false);
    let n = pts.len();
    let mut t = point::<E, N>(e, "t", &spec());
    if e.param("flat") == 1 {
        // only the first and the last coordinate of the target are arbitrary
        for k in 1..N - 1 {
            t[k] = E::S::of_q(&qi(N as i64 + 1));
        }
    }
    let tree = if n > 0 && e.choose("build", 2) == 1 {
        // first from a slice, then one more insertion
        let mut tr = KDTree::from(&pts[..n - 1]);
        tr.insert(pts[n - 1]);
        tr
    } else {
        KDTree::from(&pts[..])
    };
    let r = tree.nearest(&t);
    check_nearest(e, &pts, &t, r);
}
fn check_nearest<E: Env, const N: usize>(e: &mut E, pts: &[Point<E::S, N>], t: &Point<E::S, N>, r: Option<Point<E::S, N>>) {
    e.require("absent exactly when empty", E::B::k(r.is_none() == pts.is_empty()));
    let Some(r) = r else {
        e.cover("empty");
        return;
    };
    e.cover("found");
    let (q, qt, qr) = (qps(e, pts), qp(e, t), qp(e, &r));
    e.require("result is stored", is_in(&qr, &q));
    let d = dist2(&qr, &qt);
    let best = E::B::all(q.iter().map(|p| d.le(&dist2(p, &qt))).collect());
    e.require("nothing is closer", best);
}
fn naive<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "p", n, &spec(), false);
    let n = pts.len();
    let t = point::<E, N>(e, "t", &spec());
    let r = find_nearest_neighbour_naive(&t, &pts);
    check_nearest(e, &pts, &t, r);
}

fn count<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "p", n, &spec(), false);
    let n = pts.len();
    let sliced = match e.param("given") as usize {
        0 if n > 0 => e.choose("from_slice", n + 1),
        // all or none of the concrete points, all points
        g if g > 0 => [0, g, n][e.choose("from_slice", 3)],
        _ => 0,
    };
    let mut tree = KDTree::from(&pts[..sliced]);
    let q = qps(e, &pts);
    let mut distinct: usize = 0;
    let check = |e: &mut E, tree: &KDTree<E::S, N>, d: usize| {
        e.require("len", E::B::k(tree.len() == d));
        e.require("is_empty", E::B::k(tree.is_empty() == (d == 0)));
    };
    for i in 0..n {
        let old = is_in(&q[i], &q[..i]);
        let old = e.decide(&old);
        if old {
            e.cover("duplicate");
        } else {
            distinct += 1;
        }
        if i >= sliced {
            if i == sliced {
                let d = distinct - (!old) as usize;
                check(e, &tree, d);
            }
            let before = collect(&tree);
            tree.insert(pts[i]);
            if old {
                let after = collect(&tree);
                e.require("re-insertion changes nothing", E::B::k(before.len() == after.len()));
                let (a, b) = (qps(e, &before), qps(e, &after));
                for (x, y) in a.iter().zip(&b) {
                    e.require("re-insertion keeps every point", same(x, y));
                }
            }
            check(e, &tree, distinct);
        }
    }
    check(e, &tree, distinct);
    let got = collect(&tree);
    e.require("as many points as reported", E::B::k(got.len() == distinct));
    let g = qps(e, &got);
    for p in &q {
        e.require("every inserted point is stored", is_in(p, &g));
    }
    if distinct == n && n > 0 {
        e.cover("all distinct");
    }
}

fn collect<T: Scal, const N: usize>(t: &KDTree<T, N>) -> Vec<Point<T, N>> {
    let mut v = vec![];
    t.traverse_tree(|p| v.push(*p));
    v
}
/// `a` (pairwise distinct) and `b` hold the same points
fn same_set<E: Env>(e: &mut E, name: &str, a: &[Vec<E::Q>], b: &[Vec<E::Q>]) {
    e.require(&format!("{name}: count"), E::B::k(a.len() == b.len()));
    for p in a {
        e.require(&format!("{name}: members"), is_in(p, b));
    }
}
fn traverse<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "p", n, &spec(), true);
    let n = pts.len();
    let q = qps(e, &pts);
    for i in 0..n {
        for j in 0..i {
            let d = same(&q[i], &q[j]).not();
            e.assume(d);
        }
    }
    let mut tree = KDTree::from(&pts[..]);
    let first = collect(&tree);
    let f = qps(e, &first);
    same_set(e, "read-only traversal", &q, &f);
    let f2 = collect(&tree);
    let f2 = qps(e, &f2);
    same_set(e, "second traversal", &q, &f2);
    e.require("traversal keeps the size", E::B::k(tree.len() == n));
    let copy = tree.clone();
    // write new values on a chosen subset of the visits
    let mask: Vec<bool> = match e.param("given") {
        0 => (0..n).map(|i| e.choose(&format!("write{i}"), 2) == 1).collect(),
        // everything but one, or one only
        _ => {
            let one = if n <= 24 { e.choose("one", n) } else { [0, n / 2, n - 1][e.choose("one", 3)] };
            let rest = e.choose("rest", 2) == 1;
            (0..n).map(|i| (i == one) != rest).collect()
        }
    };
    let konst = |k: usize| -> Point<E::S, N> { Point::from([E::S::of_q(&qi(1000 + k as i64)); N]) };
    let mut seen = vec![];
    let mut k = 0;
    tree.traverse_tree_mut(|p| {
        seen.push(*p);
        if mask.get(k).copied().unwrap_or(false) {
            *p = konst(k);
        }
        k += 1;
    });
    let s = qps(e, &seen);
    same_set(e, "mutable traversal", &q, &s);
    let expect: Vec<Point<E::S, N>> = seen
        .iter()
        .enumerate()
        .map(|(i, p)| if mask.get(i).copied().unwrap_or(false) { konst(i) } else { *p })
        .collect();
    let x = qps(e, &expect);
    let after = collect(&tree);
    let a = qps(e, &after);
    same_set(e, "after writing", &x, &a);
    let mut again = vec![];
    tree.traverse_tree_mut(|p| again.push(*p));
    let ag = qps(e, &again);
    same_set(e, "later mutable traversal", &x, &ag);
    e.require("writing keeps the size", E::B::k(tree.len() == n));
    // the copy was not affected, and inserting into it does not affect the original
    let c = collect(&copy);
    let c = qps(e, &c);
    same_set(e, "clone", &q, &c);
    e.require("clone size", E::B::k(copy.len() == n && copy.is_empty() == (n == 0)));
    let mut copy = copy;
    copy.insert(konst(77));
    e.require("clone grows alone", E::B::k(copy.len() == n + 1 && tree.len() == n));
    let t2 = collect(&tree);
    let t2 = qps(e, &t2);
    same_set(e, "original after inserting into the clone", &x, &t2);
    let c2 = collect(&copy);
    let c2 = qps(e, &c2);
    let mut q2 = q.clone();
    q2.push(qp(e, &konst(77)));
    same_set(e, "clone after insertion", &q2, &c2);
    e.cover("done");
}

fn extents<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    let pts = cloud::<E, N>(e, "v", n, &spec(), false);
    let n = pts.len();
    let r = calculate_polygon_extents(&pts);
    e.require("absent exactly below three vertices", E::B::k(r.is_none() == (n < 3)));
    let Some(r) = r else {
        e.cover("too few");
        return;
    };
    e.cover("extents");
    let q = qps(e, &pts);
    for k in 0..N {
        let (lo, hi) = (e.q(*r[k].start()), e.q(*r[k].end()));
        let inside = E::B::all(q.iter().map(|p| lo.le(&p[k]).and(&p[k].le(&hi))).collect());
        e.require("extents contain every vertex", inside);
        let a = E::B::any(q.iter().map(|p| p[k].eq(&lo)).collect());
        let b = E::B::any(q.iter().map(|p| p[k].eq(&hi)).collect());
        e.require("extents are attained", a.and(&b));
    }
}

harness! {
    fn kd_nearest1 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::nearest", "KDNode::nearest", "utils::distance_squared"] (e) { nearest_q::<E, 1>(e) }
    fn kd_nearest2 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::nearest", "KDNode::nearest", "utils::distance_squared"] (e) { nearest_q::<E, 2>(e) }
    fn kd_nearest3 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::nearest", "KDNode::nearest", "utils::distance_squared"] (e) { nearest_q::<E, 3>(e) }
    fn kd_count1 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"] (e) { count::<E, 1>(e) }
    fn kd_count2 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"] (e) { count::<E, 2>(e) }
    fn kd_count3 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"] (e) { count::<E, 3>(e) }
    fn kd_traverse1 ["KDTree::traverse_tree", "KDTree::traverse_tree_mut", "KDNode::traverse_branch", "KDNode::traverse_branch_mut", "KDTree::clone"] (e) { traverse::<E, 1>(e) }
    fn kd_traverse3 ["KDTree::traverse_tree", "KDTree::traverse_tree_mut", "KDNode::traverse_branch", "KDNode::traverse_branch_mut", "KDTree::clone"] (e) { traverse::<E, 3>(e) }
    fn kd_traverse2 ["KDTree::traverse_tree", "KDTree::traverse_tree_mut", "KDNode::traverse_branch", "KDNode::traverse_branch_mut", "KDTree::clone"] (e) { traverse::<E, 2>(e) }
    fn naive1 ["find_nearest_neighbour_naive", "utils::distance_squared"] (e) { naive::<E, 1>(e) }
    fn naive2 ["find_nearest_neighbour_naive", "utils::distance_squared"] (e) { naive::<E, 2>(e) }
    fn naive3 ["find_nearest_neighbour_naive", "utils::distance_squared"] (e) { naive::<E, 3>(e) }
    fn kd_nearest4 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::nearest", "KDNode::nearest", "utils::distance_squared"] (e) { nearest_q::<E, 4>(e) }
    fn kd_nearest6 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::nearest", "KDNode::nearest", "utils::distance_squared"] (e) { nearest_q::<E, 6>(e) }
    fn kd_count4 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"] (e) { count::<E, 4>(e) }
    fn kd_count6 ["KDTree::from", "KDTree::insert", "KDNode::insert", "KDTree::len", "KDTree::is_empty", "KDTree::traverse_tree"] (e) { count::<E, 6>(e) }
    fn kd_traverse4 ["KDTree::traverse_tree", "KDTree::traverse_tree_mut", "KDNode::traverse_branch", "KDNode::traverse_branch_mut", "KDTree::clone"] (e) { traverse::<E, 4>(e) }
    fn naive4 ["find_nearest_neighbour_naive", "utils::distance_squared"] (e) { naive::<E, 4>(e) }
    fn naive6 ["find_nearest_neighbour_naive", "utils::distance_squared"] (e) { naive::<E, 6>(e) }
    fn extents4 ["calculate_polygon_extents"] (e) { extents::<E, 4>(e) }
    fn extents6 ["calculate_polygon_extents"] (e) { extents::<E, 6>(e) }
    fn extents1 ["calculate_polygon_extents"] (e) { extents::<E, 1>(e) }
    fn extents2 ["calculate_polygon_extents"] (e) { extents::<E, 2>(e) }
    fn extents3 ["calculate_polygon_extents"] (e) { extents::<E, 3>(e) }
}

const B: &str = "coordinates: all reals in [-64, 64] for the path analysis, float-exact for multiples of 1/8";

pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    let i = |h: crate::explore::Harness, n: i64| Inst::new(h, vec![("n", n)], B);
    let g = |h: crate::explore::Harness, n: i64, given: i64, seed: i64, at: i64| Inst::new(h, vec![("n", n), ("given", given), ("seed", seed), ("at", at)], &format!("{B}{GIVEN}"));
    let x = |h: crate::explore::Harness, n: i64, more: &[(&'static str, i64)]| {
        let mut i = Inst::new(h, vec![("n", n)], &format!("{B}{SCALE}{GIVEN}"));
        i.params.extend_from_slice(more);
        i
    };
    match id {
        "C01" => {
            for shape in 1..4 {
                v.push(x(kd_nearest1(), 0, &[("given", 70), ("shape", shape)]).covers(&["found"]));
            }
            for shape in 1..7 {
                let given = if shape == 4 || shape == 5 { 18 } else if t { 20 } else { 8 };
                v.push(x(kd_nearest2(), 0, &[("given", given), ("shape", shape)]).covers(&["found"]).secs(900));
            }
            v.push(x(kd_nearest3(), 0, &[("given", if t { 12 } else { 6 }), ("shape", 6)]).covers(&["found"]).secs(900));
            v.push(x(kd_nearest4(), 0, &[("given", 4), ("seed", 2)]).covers(&["found"]));
            for (h, given) in [(kd_nearest2(), 5), (kd_nearest3(), 7), (kd_nearest4(), 8), (kd_nearest6(), 10)] {
                let mut i = x(h, 0, &[("given", given), ("shape", 9), ("flat", 1)]).covers(&["found"]);
                i.bounds += "; only the first and last coordinates of the target are arbitrary";
                v.push(i);
            }
            v.push(x(kd_nearest6(), 0, &[("given", 3), ("seed", 3)]).covers(&["found"]));
            for scale in [40, -40] {
                v.push(x(kd_nearest1(), 2, &[("scale", scale)]).covers(&["found"]));
                v.push(x(kd_nearest2(), 2, &[("scale", scale)]).covers(&["found"]));
                v.push(x(kd_nearest3(), 0, &[("scale", scale), ("given", 4), ("seed", 5)]).covers(&["found"]));
            }
            for seed in 1..4 {
                v.push(g(kd_nearest2(), 0, 12, seed, 0).covers(&["found"]));
                v.push(g(kd_nearest3(), 0, 5 + seed, seed, 0).covers(&["found"]));
                v.push(g(kd_nearest1(), 0, 9, seed, 0).covers(&["found"]));
            }
            v.push(g(kd_nearest1(), 1, 7, 4, 7).covers(&["found"]));
            v.push(g(kd_nearest2(), 1, 3, 5, 0).covers(&["found"]));
            v.push(g(kd_nearest2(), 1, 3, 7, 3).covers(&["found"]));
            v.push(g(kd_nearest3(), 1, 2, 6, 2).covers(&["found"]));
            if t {
                v.push(g(kd_nearest2(), 0, 24, 8, 0).secs(900));
                v.push(g(kd_nearest3(), 0, 12, 9, 0).secs(900));
                v.push(g(kd_nearest2(), 1, 6, 5, 0).secs(900));
                v.push(g(kd_nearest3(), 1, 5, 6, 5).secs(900));
            }
            v.push(i(kd_nearest2(), 0).covers(&["empty"]));
            v.push(i(kd_nearest1(), 1).covers(&["found"]));
            v.push(i(kd_nearest1(), 3).covers(&["found"]));
            v.push(i(kd_nearest2(), 2).covers(&["found"]));
            v.push(i(kd_nearest2(), 3).covers(&["found"]));
            v.push(i(kd_nearest3(), 2).covers(&["found"]));
            v.push(i(kd_nearest1(), 4).covers(&["found"]));
            v.push(i(kd_nearest2(), 4).covers(&["found"]).secs(if t { 600 } else { 30 }));
            if t {
                v.push(i(kd_nearest3(), 3).covers(&["found"]).secs(900));
                v.push(i(kd_nearest1(), 5).covers(&["found"]).secs(900));
                v.push(i(kd_nearest2(), 5).secs(3000));
            }
        }
        "C02" => {
            for (scale, shape) in [(0, 1), (40, 2), (-40, 3), (0, 4), (0, 5), (20, 6)] {
                v.push(x(kd_count1(), 1, &[("scale", scale), ("given", 60), ("shape", if shape > 3 { shape - 3 } else { shape })]));
                v.push(x(kd_count2(), 1, &[("scale", scale), ("given", 45), ("shape", shape), ("at", 44)]));
                v.push(x(kd_count3(), 1, &[("scale", scale), ("given", 40), ("shape", shape), ("at", 40)]));
            }
            v.push(x(kd_count2(), 1, &[("given", 60), ("seed", 9), ("span", 2), ("at", 60)]));
            v.push(x(kd_count2(), 1, &[("given", 100), ("seed", 11), ("span", 30), ("at", 100)]));
            v.push(x(kd_count4(), 2, &[]));
            v.push(x(kd_count4(), 1, &[("given", 16), ("seed", 9), ("span", 1), ("at", 15)]));
            v.push(x(kd_count6(), 1, &[("given", 20), ("seed", 4), ("span", 1), ("at", 20)]));
            v.push(x(kd_count2(), 3, &[("scale", 40)]));
            v.push(x(kd_count2(), 3, &[("scale", -40)]));
            v.push(g(kd_count2(), 1, 12, 1, 12));
            v.push(g(kd_count3(), 1, 14, 2, 14));
            v.push(g(kd_count1(), 2, 7, 3, 7));
            v.push(g(kd_count2(), 1, 9, 4, 0));
            v.push(i(kd_count1(), 0));
            v.push(i(kd_count1(), 3).covers(&["duplicate", "all distinct"]));
            v.push(i(kd_count2(), 3).covers(&["duplicate", "all distinct"]));
            v.push(i(kd_count3(), 2).covers(&["duplicate", "all distinct"]));
            v.push(i(kd_count2(), 4).covers(&["duplicate", "all distinct"]));
            v.push(i(kd_count1(), 4).covers(&["duplicate", "all distinct"]));
            if t {
                v.push(i(kd_count3(), 4).secs(900));
                v.push(i(kd_count2(), 5).secs(2000));
                v.push(i(kd_count1(), 6).secs(900));
            }
        }
        "C03" => {
            for shape in 1..7 {
                v.push(x(kd_traverse1(), 0, &[("given", 70), ("shape", (shape - 1) % 3 + 1)]).covers(&["done"]));
                v.push(x(kd_traverse2(), 0, &[("given", 60), ("shape", shape)]).covers(&["done"]));
                v.push(x(kd_traverse3(), 1, &[("given", 27), ("shape", shape), ("at", 27)]).covers(&["done"]));
            }
            v.push(x(kd_traverse4(), 1, &[("given", 12), ("seed", 5), ("span", 1), ("at", 12)]).covers(&["done"]));
            v.push(x(kd_traverse2(), 0, &[("given", 120), ("seed", 6), ("span", 20)]).covers(&["done"]));
            v.push(x(kd_traverse3(), 0, &[("given", 300), ("seed", 8), ("span", 9)]).covers(&["done"]));
            v.push(x(kd_traverse2(), 3, &[("scale", -40)]).covers(&["done"]));
            v.push(g(kd_traverse1(), 1, 7, 1, 3).covers(&["done"]));
            v.push(g(kd_traverse2(), 1, 12, 2, 12).covers(&["done"]));
            v.push(g(kd_traverse3(), 1, 12, 3, 0).covers(&["done"]));
            v.push(g(kd_traverse3(), 0, 20, 4, 0).covers(&["done"]));
            v.push(i(kd_traverse1(), 0).covers(&["done"]));
            v.push(i(kd_traverse1(), 3).covers(&["done"]));
            v.push(i(kd_traverse2(), 3).covers(&["done"]));
            v.push(i(kd_traverse1(), 4).covers(&["done"]));
            if t {
                v.push(i(kd_traverse2(), 4).covers(&["done"]).secs(900));
                v.push(i(kd_traverse1(), 5).covers(&["done"]).secs(900));
            }
        }
        "C04" => {
            for (n, given, at) in [(1, 16, 16), (1, 17, 16), (1, 24, 23), (1, 33, 0), (1, 40, 40), (0, 130, 0)] {
                if t || given == 16 {
                    v.push(x(naive2(), n, &[("given", given), ("seed", given), ("span", 6), ("at", at)]).covers(&["found"]).secs(900));
                }
                v.push(x(naive1(), n, &[("given", given), ("seed", given), ("span", 60), ("at", at)]).covers(&["found"]));
            }
            v.push(x(naive3(), 0, &[("given", 9), ("seed", 5)]).covers(&["found"]));
            v.push(x(naive4(), 1, &[("given", 5), ("seed", 5)]).covers(&["found"]));
            v.push(x(naive6(), 2, &[]).covers(&["found"]));
            for scale in [40, -40] {
                v.push(x(naive1(), 3, &[("scale", scale)]).covers(&["found"]));
                v.push(x(naive2(), 3, &[("scale", scale)]).covers(&["found"]));
                v.push(x(naive3(), 2, &[("scale", scale)]).covers(&["found"]));
            }
            v.push(g(naive2(), 0, 14, 1, 0).covers(&["found"]));
            v.push(g(naive3(), 1, 9, 2, 9).covers(&["found"]));
            v.push(g(naive1(), 1, 12, 3, 0).covers(&["found"]));
            v.push(i(naive2(), 0).covers(&["empty"]));
            v.push(i(naive1(), 1).covers(&["found"]));
            v.push(i(naive1(), 4).covers(&["found"]));
            v.push(i(naive2(), 4).covers(&["found"]));
            v.push(i(naive3(), 3).covers(&["found"]));
            if t {
                v.push(i(naive2(), 6).covers(&["found"]).secs(900));
                v.push(i(naive3(), 5).covers(&["found"]).secs(900));
            }
        }
        "C12" => {
            for (n, given, at) in [(1, 16, 16), (1, 17, 16), (1, 33, 0), (2, 63, 63), (1, 130, 129)] {
                v.push(x(extents2(), n, &[("given", given), ("seed", given), ("span", 30), ("at", at)]).covers(&["extents"]));
            }
            v.push(x(extents4(), 3, &[]).covers(&["extents"]));
            v.push(x(extents6(), 1, &[("given", 7), ("seed", 5), ("at", 7)]).covers(&["extents"]));
            for scale in [40, -40, 100, -100] {
                v.push(x(extents1(), 3, &[("scale", scale)]).covers(&["extents"]));
                v.push(x(extents2(), 3, &[("scale", scale)]).covers(&["extents"]));
            }
            v.push(g(extents2(), 1, 12, 1, 12).covers(&["extents"]));
            v.push(g(extents3(), 1, 9, 2, 0).covers(&["extents"]));
            v.push(g(extents1(), 2, 8, 3, 4).covers(&["extents"]));
            for n in 0..3 {
                v.push(i(extents2(), n).covers(&["too few"]));
            }
            v.push(i(extents1(), 3).covers(&["extents"]));
            v.push(i(extents2(), 3).covers(&["extents"]));
            v.push(i(extents3(), 3).covers(&["extents"]));
            v.push(i(extents1(), 5).covers(&["extents"]));
            v.push(i(extents2(), 4).covers(&["extents"]));
            if t {
                v.push(i(extents1(), 7).covers(&["extents"]).secs(900));
                v.push(i(extents2(), 5).covers(&["extents"]).secs(900));
                v.push(i(extents3(), 4).covers(&["extents"]).secs(900));
            }
        }
        _ => {}
    }
}
