//! Lexicographic sorting.
use super::*;
use mapping_algorithms::point_clouds::{lex_sort, lex_sort_in_place, lex_sort_ref};
use num_traits::Float;

fn spec() -> Spec {
    grid(1000, -8)
}
/// a <= b for values that are not NaN
fn le_s<E: Env>(e: &mut E, a: E::S, b: E::S) -> E::B {
    if e.is_finite(a) && e.is_finite(b) {
        let (x, y) = (e.q(a), e.q(b));
        x.le(&y)
    } else {
        E::B::k(a <= b)
    }
}
fn lex_le_s<E: Env>(e: &mut E, a: &[E::S], b: &[E::S]) -> E::B {
    match a.split_first() {
        None => E::B::k(true),
        Some((x, r)) => {
            let (y, s) = b.split_first().unwrap();
            let (le, ge) = (le_s(e, *x, *y), le_s(e, *y, *x));
            let rest = lex_le_s(e, r, s);
            ge.not().or(&le.and(&rest))
        }
    }
}
fn same_s<E: Env>(e: &mut E, a: E::S, b: E::S) -> E::B {
    if Float::is_nan(a) || Float::is_nan(b) {
        return E::B::k(Float::is_nan(a) && Float::is_nan(b));
    }
    let (p, q) = (le_s(e, a, b), le_s(e, b, a));
    p.and(&q)
}
fn run_sort<E: Env, const N: usize>(e: &mut E) {
    let n = e.param("n") as usize;
    // 0: finite, 1: NaN too, 3: infinities too
    let sp = e.param("special") as usize;
    let sc = scaled(e, &spec());
    let any: Vec<Point<E::S, N>> = (0..n)
        .map(|i| Point::from(std::array::from_fn(|k| e.input_special(&format!("p{i}.{k}"), &sc, sp))))
        .collect();
    let mut pts = given::<E, N>(e.param("given") as usize, e.param("seed"), 2, false);
    let at = (e.param("at") as usize).min(pts.len());
    pts.splice(at..at, any);
    let n = pts.len();
    let nan = pts.iter().any(|p| p.coords.iter().any(|c| Float::is_nan(*c)));
    let orig = pts.clone();
    let mut inplace = pts.clone();
    let ok = lex_sort_in_place(&mut inplace);
    let by_ref = lex_sort_ref(&pts);
    let copy = lex_sort(&pts);
    for (p, o) in pts.iter().zip(&orig) {
        for k in 0..N {
            let s = same_s(e, p[k], o[k]);
            e.require("input of the copying sorts unchanged", s);
        }
    }
    e.require(
        "fails exactly on NaN",
        E::B::k(ok == !nan && by_ref.is_some() == !nan && copy.is_some() == !nan),
    );
    if nan {
        e.cover("nan");
        for (p, o) in inplace.iter().zip(&orig) {
            for k in 0..N {
                let s = same_s(e, p[k], o[k]);
                e.require("rejected input unchanged in place", s);
            }
        }
        return;
    }
    let (Some(by_ref), Some(copy)) = (by_ref, copy) else { return };
    if !ok {
        return;
    }
    e.cover("sorted");
    e.require("lengths", E::B::k(by_ref.len() == n && copy.len() == n && inplace.len() == n));
    if by_ref.len() != n || copy.len() != n {
        return;
    }
    // the references are a permutation of the originals
    let mut used = vec![false; n];
    for r in &by_ref {
        match pts.iter().position(|p| std::ptr::eq(p, *r)) {
            Some(i) if !used[i] => used[i] = true,
            _ => e.require("references are a permutation of the input", E::B::k(false)),
        }
    }
    e.require("references are a permutation of the input", E::B::k(used.iter().all(|x| *x)));
    for i in 0..n {
        for k in 0..N {
            let s = same_s(e, by_ref[i][k], copy[i][k]).and(&same_s(e, copy[i][k], inplace[i][k]));
            e.require("the three variants agree", s);
        }
        if i + 1 < n {
            let s = lex_le_s(e, by_ref[i].coords.as_slice(), by_ref[i + 1].coords.as_slice());
            e.require("ascending", s);
        }
    }
}
harness! {
    fn sort1 ["lex_sort", "lex_sort_ref", "lex_sort_in_place", "lex_sort_func", "validate_input"] (e) { run_sort::<E, 1>(e) }
    fn sort2 ["lex_sort", "lex_sort_ref", "lex_sort_in_place", "lex_sort_func", "validate_input"] (e) { run_sort::<E, 2>(e) }
    fn sort4 ["lex_sort", "lex_sort_ref", "lex_sort_in_place", "lex_sort_func", "validate_input"] (e) { run_sort::<E, 4>(e) }
    fn sort6 ["lex_sort", "lex_sort_ref", "lex_sort_in_place", "lex_sort_func", "validate_input"] (e) { run_sort::<E, 6>(e) }
    fn sort3 ["lex_sort", "lex_sort_ref", "lex_sort_in_place", "lex_sort_func", "validate_input"] (e) { run_sort::<E, 3>(e) }
}
pub fn plan(id: &str, t: bool, v: &mut Vec<Inst>) {
    if id != "C05" {
        return;
    }
    let i = |h: crate::explore::Harness, n: i64, sp: i64| {
        Inst::new(h, vec![("n", n), ("special", sp)], "coordinates: all reals in [-1000, 1000], NaN (special >= 1) and the infinities (special = 3)")
    };
    let g = |h: crate::explore::Harness, n: i64, sp: i64, given: i64, at: i64| {
        Inst::new(h, vec![("n", n), ("special", sp), ("given", given), ("seed", given), ("at", at)], "coordinates: all reals in [-1000, 1000], NaN (special >= 1) and the infinities (special = 3); `given` further points are concrete integers of magnitude up to 2, drawn by `seed`, `at` of them before the arbitrary ones")
    };
    v.push(g(sort2(), 1, 3, 11, 5).covers(&["sorted", "nan"]));
    v.push(g(sort2(), 1, 0, 40, 40).covers(&["sorted"]));
    v.push(g(sort3(), 1, 1, 24, 0).covers(&["sorted", "nan"]));
    v.push(g(sort1(), 2, 0, 22, 9).covers(&["sorted"]));
    v.push(g(sort3(), 1, 3, 2, 2).covers(&["sorted", "nan"]));
    for scale in [40, -40, 100, -100] {
        for (h, n) in [(sort1(), 3), (sort2(), 2), (sort3(), 2)] {
            let mut x = i(h, n, 0).covers(&["sorted"]);
            x.bounds += SCALE;
            x.params.push(("scale", scale));
            v.push(x);
        }
    }
    v.push(i(sort4(), 2, 1).covers(&["sorted", "nan"]).secs(60));
    v.push(i(sort6(), 2, 0).covers(&["sorted"]));
    v.push(g(sort4(), 1, 1, 9, 4).covers(&["sorted", "nan"]));
    v.push(g(sort6(), 1, 1, 3, 1).covers(&["sorted", "nan"]));
    v.push(g(sort2(), 1, 1, 130, 129).covers(&["sorted", "nan"]));
    v.push(g(sort1(), 1, 3, 70, 35).covers(&["sorted", "nan"]));
    v.push(i(sort2(), 0, 0).covers(&["sorted"]));
    v.push(i(sort1(), 1, 3).covers(&["sorted", "nan"]));
    v.push(i(sort1(), 3, 3).covers(&["sorted", "nan"]));
    v.push(i(sort2(), 2, 3).covers(&["sorted", "nan"]));
    v.push(i(sort3(), 2, 1).covers(&["sorted", "nan"]));
    v.push(i(sort2(), 3, 0).covers(&["sorted"]));
    v.push(i(sort3(), 3, 0).covers(&["sorted"]));
    v.push(i(sort1(), 4, 0).covers(&["sorted"]));
    if t {
        v.push(i(sort2(), 3, 1).covers(&["sorted", "nan"]).secs(900));
        v.push(i(sort2(), 4, 0).covers(&["sorted"]).secs(900));
        v.push(i(sort1(), 5, 0).covers(&["sorted"]).secs(900));
    }
}
