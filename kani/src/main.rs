//! Native runs of the real functions: `kreplay diff <case substring> <samples> [words...]`
//! compares every matching pregenerated function with its generic counterpart, `kreplay nan
//! <type> <word> [<high word>]` evaluates the NaN test, `kreplay layout` checks the mirror of
//! the ICP configuration.
use kanix::cases::*;
use kanix::*;
use mapping_algorithms::point_clouds as pc;
use mapping_algorithms::types::IsNan;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Diff {
    only: String,
    samples: u64,
    words: Option<Words>,
    runs: u64,
    shown: u64,
    seen: Vec<&'static str>,
}
fn run<C: Case>(f: impl Fn() -> C::Out) -> Option<Log> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut l = Log::new();
        C::out(&f(), &mut l);
        l
    }))
    .ok()
}
impl Diff {
    fn one<C: Case>(&mut self, a: &C::Args) -> bool {
        self.runs += 1;
        let p = run::<C>(|| C::pregenerated(a));
        let g = run::<C>(|| C::generic(a));
        // results that vary by themselves (hash-map order and rounding) say nothing
        let unstable = || (0..8).any(|_| run::<C>(|| C::generic(a)) != g);
        if p != g && !unstable() {
            self.shown += 1;
            println!("MISMATCH {} arguments {} pregenerated {:x?} generic {:x?}", C::name(), C::show(a), p, g);
            return false;
        }
        true
    }
}
impl Visitor for Diff {
    fn visit<C: Case>(&mut self) {
        if !C::name().contains(&self.only) {
            return;
        }
        self.seen.push(C::name());
        if let Some(w) = self.words {
            // finite, moderate arguments only: the run must end
            if self.only.contains("bresenham") || !self.one::<C>(&C::args(&w)) {
                return;
            }
        }
        for i in 0..self.samples {
            let mut g = Gen(i + 1);
            let a = C::sample(&mut g);
            if !self.one::<C>(&a) {
                return;
            }
        }
    }
}
fn all<V: Visitor>(v: &mut V) {
    graham_single(v);
    graham_double(v);
    jarvis_single(v);
    jarvis_double(v);
    lines_2d_single(v);
    lines_3d_single(v);
    lines_2d_double(v);
    lines_3d_double(v);
    pip_ones(v);
    pip_manys(v);
    distances(v);
    bearings(v);
    icps_2d(v);
    icps_3d(v);
}
struct Names(Vec<&'static str>);
impl Visitor for Names {
    fn visit<C: Case>(&mut self) {
        self.0.push(C::name())
    }
}
fn layout() -> bool {
    let c = |k, n, a, i| {
        pc::ICPConfiguration::<f32>::builder().with_kd_tree(k).with_max_iterations(n).with_absolute_mse_threshold(a).with_mse_interval_threshold(i).build()
    };
    let d = |k, n, a, i| {
        pc::ICPConfiguration::<f64>::builder().with_kd_tree(k).with_max_iterations(n).with_absolute_mse_threshold(a).with_mse_interval_threshold(i).build()
    };
    let mut ok = true;
    for k in [false, true] {
        for a in [None, Some(0.5)] {
            for n in [3, usize::MAX / 3] {
                if std::mem::size_of::<pc::ICPConfiguration<f32>>() != std::mem::size_of::<Mirror<f32>>()
                    || std::mem::size_of::<pc::ICPConfiguration<f64>>() != std::mem::size_of::<Mirror<f64>>()
                {
                    return false;
                }
                let x = c(k, n, a, 7.25);
                let m = mirror(&x);
                ok &= m.use_kd_tree == k && m.max_iterations == n && m.abs == a && m.interval == 7.25;
                let x = d(k, n, a.map(|v| v as f64), 7.25);
                let m = mirror(&x);
                ok &= m.use_kd_tree == k && m.max_iterations == n && m.abs == a.map(|v| v as f64) && m.interval == 7.25;
            }
        }
    }
    ok
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "names" => {
            let mut n = Names(vec![]);
            all(&mut n);
            for x in n.0 {
                println!("{x}");
            }
        }
        "layout" => println!("{}", if layout() { "ok" } else { "different" }),
        "diff" => {
            let mut words = None;
            if a.len() > 3 {
                let mut w: Words = [0; 16];
                for (i, x) in a[3..].iter().take(16).enumerate() {
                    w[i] = x.parse().unwrap();
                }
                words = Some(w);
            }
            let mut d = Diff { only: a[1].clone(), samples: a[2].parse().unwrap(), words, runs: 0, shown: 0, seen: vec![] };
            all(&mut d);
            println!("functions {} runs {} mismatches {}", d.seen.len(), d.runs, d.shown);
        }
        "nan" => {
            let w: u64 = a[2].parse().unwrap();
            let hi: u64 = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);
            let v = (w as u128) | ((hi as u128) << 64);
            let (got, want) = match a[1].as_str() {
                "f32" => (IsNan::is_nan(f32::from_bits(w as u32)), (w as u32) << 1 > 0xff00_0000),
                "f64" => (IsNan::is_nan(f64::from_bits(w)), w << 1 > 0xffe0_0000_0000_0000),
                "u8" => (IsNan::is_nan(v as u8), false),
                "u16" => (IsNan::is_nan(v as u16), false),
                "u32" => (IsNan::is_nan(v as u32), false),
                "u64" => (IsNan::is_nan(v as u64), false),
                "u128" => (IsNan::is_nan(v), false),
                "usize" => (IsNan::is_nan(v as usize), false),
                "i8" => (IsNan::is_nan(v as i8), false),
                "i16" => (IsNan::is_nan(v as i16), false),
                "i32" => (IsNan::is_nan(v as i32), false),
                "i64" => (IsNan::is_nan(v as i64), false),
                "i128" => (IsNan::is_nan(v as i128), false),
                "isize" => (IsNan::is_nan(v as isize), false),
                t => panic!("unknown type {t}"),
            };
            println!("{}", if got == want { "agree" } else { "MISMATCH" });
        }
        _ => panic!("unknown command"),
    }
}
