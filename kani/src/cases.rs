//! The pregenerated functions, one `Case` each.
use crate::*;
use mapping_algorithms::{geo, lines, point_clouds as pc, polygons};
use nalgebra::{Isometry, Point, Point2, RealField, Scalar};

pub type Words = [u64; 16];

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Graham,
    Jarvis,
    Bresenham,
    PipOne,
    PipMany,
    Distance,
    Bearing,
    Icp,
}
#[derive(Clone, Copy, PartialEq)]
pub struct Sig {
    pub kind: Kind,
    pub a: u64,
    pub b: u64,
    pub n: usize,
}

/// one word per number type: the start and the length of its name
pub fn tag<T>() -> u64 {
    let n = core::any::type_name::<T>().as_bytes();
    (n[0] as u64) << 16 | (n[1] as u64) << 8 | n.len() as u64
}

pub trait Case {
    type Args;
    type Out;
    fn name() -> &'static str;
    fn sig() -> Sig;
    /// arguments from arbitrary words
    fn args(w: &Words) -> Self::Args;
    fn log(a: &Self::Args, l: &mut Log);
    fn pregenerated(a: &Self::Args) -> Self::Out;
    fn generic(a: &Self::Args) -> Self::Out;
    /// the words of the recorders' arbitrary result
    #[cfg(kani)]
    fn canned(r: &[u64; 10], l: &mut Log);
    fn out(o: &Self::Out, l: &mut Log);
    /// realistic arguments for the native comparison
    #[cfg(not(kani))]
    fn sample(g: &mut Gen) -> Self::Args;
    #[cfg(not(kani))]
    fn show(a: &Self::Args) -> String;
}

/// 0, 1 or 2
#[cfg(not(kani))]
pub fn small(w: u64) -> usize {
    [0, 1, 2, 2][(w & 3) as usize]
}
/// the largest number of points of a cloud (a power of two less one)
#[cfg(kani)]
pub const MOST: usize = if option_env!("C28_DEEP").is_some() { 63 } else { 15 };
/// the length, the first two points at fixed positions of the log, and which slice it is: longer
/// clouds are the same when they are the same memory
#[cfg(kani)]
pub fn put_points<T: Copy + Scalar, const N: usize>(l: &mut Log, p: &[Point<T, N>]) {
    l.place(p.as_ptr() as *const u8, p.len());
    l.push(p.len() as u64);
    let mut k = 0;
    while k < 2 {
        let mut i = 0;
        while i < N {
            l.push(if k < p.len() { word(&p[k].coords[i]) } else { 0 });
            i += 1;
        }
        k += 1;
    }
}
#[cfg(not(kani))]
pub fn put_points<T: Copy + Scalar, const N: usize>(l: &mut Log, p: &[Point<T, N>]) {
    l.push(p.len() as u64);
    for q in p {
        for c in q.coords.iter() {
            l.push(word(c));
        }
    }
}
pub fn put_opt<T: Copy>(l: &mut Log, o: &Option<T>) {
    match o {
        None => {
            l.push(0);
            l.push(0);
        }
        Some(x) => {
            l.push(1);
            l.push(word(x));
        }
    }
}
/// the fields of a configuration; the library does not expose them, so they are read through a
/// struct with the same definition (the native run checks that this reads them correctly)
#[allow(dead_code)]
pub struct Mirror<T> {
    pub use_kd_tree: bool,
    pub max_iterations: usize,
    pub abs: Option<T>,
    pub interval: T,
}
pub fn mirror<T>(c: &pc::ICPConfiguration<T>) -> &Mirror<T> {
    assert!(core::mem::size_of::<pc::ICPConfiguration<T>>() == core::mem::size_of::<Mirror<T>>());
    unsafe { &*(c as *const pc::ICPConfiguration<T> as *const Mirror<T>) }
}
pub fn put_config<T: Copy>(l: &mut Log, c: &pc::ICPConfiguration<T>) {
    let m = mirror(c);
    l.push(m.use_kd_tree as u64);
    l.push(m.max_iterations as u64);
    put_opt(l, &m.abs);
    l.push(word(&m.interval));
}
pub fn point<T: Copy + Scalar, const N: usize>(w: &[u64], i: usize) -> Point<T, N> {
    let mut p = core::mem::MaybeUninit::<Point<T, N>>::uninit();
    let c = p.as_mut_ptr() as *mut T;
    let mut k = 0;
    while k < N {
        unsafe { c.add(k).write(value(w[i + k])) };
        k += 1;
    }
    unsafe { p.assume_init() }
}
/// the recorders' result: its memory and one element of it at an arbitrary place
#[cfg(kani)]
pub struct Given {
    pub at: *const u8,
    pub probe: [u64; 3],
}
#[cfg(kani)]
pub static mut GIVEN: Given = Given { at: core::ptr::null(), probe: [0; 3] };
#[cfg(kani)]
fn length(r: &[u64; 10]) -> usize {
    (r[0] & MOST as u64) as usize
}
/// where the element is looked at, if the result has one there
#[cfg(kani)]
fn place(r: &[u64; 10], n: usize) -> Option<usize> {
    let i = (r[8] & MOST as u64) as usize;
    (i < n).then_some(i)
}
#[cfg(kani)]
fn probe<T: Copy + Scalar, const N: usize>(p: &[Point<T, N>], r: &[u64; 10]) -> [u64; 3] {
    let mut o = [0; 3];
    if let Some(i) = place(r, p.len()) {
        let mut k = 0;
        while k < N {
            o[k] = word(&p[i].coords[k]);
            k += 1;
        }
    }
    o
}
#[cfg(kani)]
pub fn ret_vec<T: Copy + Scalar, const N: usize>(r: &[u64; 10]) -> Vec<Point<T, N>> {
    let mut v = Vec::with_capacity(MOST + 1);
    unsafe {
        let p: *mut Point<T, N> = v.as_mut_ptr();
        p.write(point(r, 1));
        p.add(1).write(point(r, 4));
        v.set_len(length(r));
        GIVEN = Given { at: p as *const u8, probe: probe(&v, r) };
    }
    v
}
#[cfg(kani)]
pub fn ret_points<T: Copy + Scalar>(r: &[u64; 10]) -> Option<Vec<Point2<T>>> {
    (r[9] & 1 == 1).then(|| ret_vec(r))
}
#[cfg(kani)]
pub fn ret_bools(r: &[u64; 10]) -> Option<Vec<bool>> {
    if r[9] & 1 == 0 {
        return None;
    }
    let mut v: Vec<bool> = Vec::with_capacity(MOST + 1);
    unsafe {
        let p: *mut bool = v.as_mut_ptr();
        p.write(r[1] & 1 == 1);
        p.add(1).write(r[2] & 1 == 1);
        v.set_len(length(r));
        let mut word = 0;
        if let Some(i) = place(r, v.len()) {
            if i > 1 {
                p.add(i).write(r[3] & 1 == 1);
            }
            word = v[i] as u64;
        }
        GIVEN = Given { at: p as *const u8, probe: [word, 0, 0] };
    }
    Some(v)
}
pub fn ret_icp<T: Copy + RealField, R, const N: usize>(r: &[u64; 10]) -> pc::ICPResult<T, R, N>
where
    R: nalgebra::AbstractRotation<T, N>,
{
    match r[9] & 15 {
        0 => Err(pc::ICPError::SourcePointCloudEmpty),
        1 => Err(pc::ICPError::TargetPointCloudEmpty),
        2 => Err(pc::ICPError::NoNearestNeighbour),
        3 => Err(pc::ICPError::IterationNumIsZero),
        4 => Err(pc::ICPError::MSEIntervalThreshold),
        5 => Err(pc::ICPError::MSEAbsoluteThreshold),
        6 => Err(pc::ICPError::AlrogithmDidNotConverge),
        7 => Err(pc::ICPError::IterationDidNotConverge((point(r, 0), point(r, 3)))),
        _ => {
            let size = core::mem::size_of::<Isometry<T, R, N>>() / core::mem::size_of::<T>();
            assert!(size <= 7);
            let mut t: Isometry<T, R, N> = Isometry::identity();
            let p = &mut t as *mut Isometry<T, R, N> as *mut T;
            for i in 0..size {
                unsafe { *p.add(i) = value(r[i]) };
            }
            Ok(pc::ICPSuccess { transform: t, mse: value(r[7]), iteration_num: r[8] as usize })
        }
    }
}
pub fn put_icp<T: Copy + RealField, R, const N: usize>(o: &pc::ICPResult<T, R, N>, l: &mut Log)
where
    R: nalgebra::AbstractRotation<T, N>,
{
    match o {
        Ok(s) => {
            l.push(100);
            let size = core::mem::size_of::<Isometry<T, R, N>>() / core::mem::size_of::<T>();
            let p = &s.transform as *const Isometry<T, R, N> as *const T;
            for i in 0..size {
                l.push(word(unsafe { &*p.add(i) }));
            }
            l.push(word(&s.mse));
            l.push(s.iteration_num as u64);
        }
        Err(e) => match e {
            pc::ICPError::SourcePointCloudEmpty => l.push(0),
            pc::ICPError::TargetPointCloudEmpty => l.push(1),
            pc::ICPError::NoNearestNeighbour => l.push(2),
            pc::ICPError::IterationNumIsZero => l.push(3),
            pc::ICPError::MSEIntervalThreshold => l.push(4),
            pc::ICPError::MSEAbsoluteThreshold => l.push(5),
            pc::ICPError::AlrogithmDidNotConverge => l.push(6),
            pc::ICPError::IterationDidNotConverge((a, b)) => {
                l.push(7);
                put_points(l, &[*a]);
                put_points(l, &[*b]);
            }
        },
    }
}
fn put_opt_points<T: Copy + Scalar>(o: &Option<Vec<Point2<T>>>, l: &mut Log) {
    l.push(o.is_some() as u64);
    match o {
        None => put_result::<T, 2>(&[], l),
        Some(v) => put_result(v, l),
    }
}
#[cfg(not(kani))]
fn put_result<T: Copy + Scalar, const N: usize>(p: &[Point<T, N>], l: &mut Log) {
    put_points(l, p)
}
#[cfg(kani)]
fn put_result<T: Copy + Scalar, const N: usize>(p: &[Point<T, N>], l: &mut Log) {
    put_points(l, p);
    let r = unsafe { &rec::REC.ret };
    push3(l, &probe(p, r));
}
#[cfg(kani)]
fn push3(l: &mut Log, w: &[u64; 3]) {
    l.push(w[0]);
    l.push(w[1]);
    l.push(w[2]);
}

/// the low bytes of a word, as many as T has
#[cfg(kani)]
fn low<T>(w: u64) -> u64 {
    w & (u64::MAX >> (64 - 8 * core::mem::size_of::<T>()))
}
#[cfg(kani)]
fn exp_points<T, const N: usize>(r: &[u64; 10], some: bool, l: &mut Log) {
    let n = if some { length(r) } else { 0 };
    let given = unsafe { &GIVEN };
    l.place(given.at, n);
    l.push(n as u64);
    let mut k = 0;
    while k < 2 {
        let mut i = 0;
        while i < N {
            l.push(if k < n { low::<T>(r[1 + 3 * k + i]) } else { 0 });
            i += 1;
        }
        k += 1;
    }
    push3(l, if n > 0 { &given.probe } else { &[0; 3] });
}
#[cfg(kani)]
fn exp_opt_points<T, const N: usize>(r: &[u64; 10], l: &mut Log) {
    let some = r[9] & 1 == 1;
    l.push(some as u64);
    exp_points::<T, N>(r, some, l);
}
#[cfg(kani)]
fn exp_icp<T: Copy + RealField, R, const N: usize>(r: &[u64; 10], l: &mut Log)
where
    R: nalgebra::AbstractRotation<T, N>,
{
    put_icp(&ret_icp::<T, R, N>(r), l)
}

#[cfg(not(kani))]
mod gen {
    use super::*;
    /// deterministic source of realistic inputs
    pub struct Gen(pub u64);
    impl Gen {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.next() % n
        }
        pub fn flag(&mut self) -> bool {
            self.next() & 1 == 1
        }
        pub fn len(&mut self) -> usize {
            [0, 1, 2, 3, 4, 5, 7, 12, 6, 8, 9, 17, 33, 63, 100, 20][self.below(if self.0 & 3 == 0 { 16 } else { 8 }) as usize]
        }
    }
    pub trait Sample: Copy {
        /// mode 0: small grid, 1: wide, 2: clustered on a line far out
        fn sample(g: &mut Gen, mode: u64, k: usize) -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Sample for $t {
        fn sample(g: &mut Gen, mode: u64, _k: usize) -> Self {
            match mode {
                0 => g.below(7) as $t,
                1 => (g.next() as $t) >> (<$t>::BITS / 2 + 1),
                _ => (<$t>::MAX >> (<$t>::BITS / 2)).wrapping_sub(g.below(4) as $t),
            }
        }
    })* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    macro_rules! floats { ($($t:ty),*) => { $(impl Sample for $t {
        fn sample(g: &mut Gen, mode: u64, k: usize) -> Self {
            match mode {
                0 => g.below(7) as $t - 3.0,
                1 => (g.below(2_000_001) as $t - 1_000_000.0) / 1234.567,
                _ => (1.0e6 + k as $t / 3.0) + (g.below(5) as $t) * 1.0e-3,
            }
        }
    })* } }
    floats!(f32, f64);
    pub fn cloud<T: Sample + Scalar, const N: usize>(g: &mut Gen, n: usize, mode: u64) -> Vec<Point<T, N>> {
        (0..n)
            .map(|i| Point::from(core::array::from_fn::<T, N, _>(|_| T::sample(g, mode, i))))
            .collect()
    }
    pub fn voxel(g: &mut Gen) -> Option<f64> {
        match g.below(4) {
            0 => Some(0.5 + g.below(40) as f64 * 0.37),
            1 => Some(1.0),
            _ => None,
        }
    }
}
#[cfg(not(kani))]
pub use gen::*;

#[cfg(kani)]
type Cloud<T, const N: usize> = Vec<Point<T, N>>;
/// up to MOST points: the first two from the words, the others arbitrary (fresh memory)
#[cfg(kani)]
fn cloud_of<T: Copy + Scalar, const N: usize>(w: &Words, i: usize, n: u64) -> Cloud<T, N> {
    let mut v = Vec::with_capacity(MOST + 1);
    unsafe {
        let p: *mut Point<T, N> = v.as_mut_ptr();
        p.write(point(w, i));
        p.add(1).write(point(w, i + N));
        v.set_len((n & MOST as u64) as usize);
    }
    v
}
#[cfg(kani)]
fn slice<T: Scalar, const N: usize>(c: &Cloud<T, N>) -> &[Point<T, N>] {
    c
}
#[cfg(not(kani))]
type Cloud<T, const N: usize> = Vec<Point<T, N>>;
#[cfg(not(kani))]
fn cloud_of<T: Copy + Scalar, const N: usize>(w: &Words, i: usize, n: u64) -> Cloud<T, N> {
    vec![point(w, i), point(w, i + N)][..small(n)].to_vec()
}
#[cfg(not(kani))]
fn slice<T: Scalar, const N: usize>(c: &Cloud<T, N>) -> &[Point<T, N>] {
    c
}


/// something done for each case of a family
pub trait Visitor {
    fn visit<C: Case>(&mut self);
}

macro_rules! graham_cases { ($list:ident, $m:ident, $p:ty; $($t:ident)*) => { paste::paste! {
    pub fn $list<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Cloud<$t, 2>, bool, Option<$p>);
            type Out = Option<Vec<Point2<$t>>>;
            fn name() -> &'static str { concat!("polygons::", stringify!($m), "::graham_scan_", stringify!($t)) }
            fn sig() -> Sig { Sig { kind: Kind::Graham, a: tag::<$p>(), b: tag::<$t>(), n: 2 } }
            fn args(w: &Words) -> Self::Args {
                (cloud_of(w, 0, w[4]), w[5] & 1 == 1, (w[6] & 1 == 1).then_some(value(w[7])))
            }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, slice(&a.0)); l.push(a.1 as u64); put_opt(l, &a.2); }
            fn pregenerated(a: &Self::Args) -> Self::Out { polygons::$m::[<graham_scan_ $t>](slice(&a.0), a.1, a.2) }
            fn generic(a: &Self::Args) -> Self::Out { polygons::graham_scan::<$p, $t>(slice(&a.0), a.1, a.2) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { exp_opt_points::<$t, 2>(r, l) }
            fn out(o: &Self::Out, l: &mut Log) { put_opt_points(o, l) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let (n, m) = (g.len(), g.below(3));
                (cloud(g, n, m), g.flag(), voxel(g).map(|x| x as $p))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
} } }
graham_cases!(graham_single, single_precision, f32; u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
graham_cases!(graham_double, double_precision, f64; u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);

macro_rules! jarvis_cases { ($list:ident, $m:ident, $p:ty; $($t:ident)*) => { paste::paste! {
    pub fn $list<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Cloud<$t, 2>, Option<$p>);
            type Out = Option<Vec<Point2<$t>>>;
            fn name() -> &'static str { concat!("polygons::", stringify!($m), "::jarvis_march_", stringify!($t)) }
            fn sig() -> Sig { Sig { kind: Kind::Jarvis, a: tag::<$p>(), b: tag::<$t>(), n: 2 } }
            fn args(w: &Words) -> Self::Args {
                (cloud_of(w, 0, w[4]), (w[6] & 1 == 1).then_some(value(w[7])))
            }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, slice(&a.0)); put_opt(l, &a.1); }
            fn pregenerated(a: &Self::Args) -> Self::Out { polygons::$m::[<jarvis_march_ $t>](slice(&a.0), a.1) }
            fn generic(a: &Self::Args) -> Self::Out { polygons::jarvis_march::<$p, $t>(slice(&a.0), a.1) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { exp_opt_points::<$t, 2>(r, l) }
            fn out(o: &Self::Out, l: &mut Log) { put_opt_points(o, l) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let (n, m) = (g.len(), g.below(3));
                (cloud(g, n, m), voxel(g).map(|x| x as $p))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
} } }
jarvis_cases!(jarvis_single, single_precision, f32; u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
jarvis_cases!(jarvis_double, double_precision, f64; u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);

macro_rules! line_cases { ($list:ident, $m:ident, $p:ty, $n:literal; $($t:ident)*) => { paste::paste! {
    pub fn $list<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Point<$p, $n>, Point<$p, $n>);
            type Out = Vec<Point<$t, $n>>;
            fn name() -> &'static str { concat!("lines::", stringify!($m), "::plot_", $n, "d_", stringify!($t), "_bresenham_line") }
            fn sig() -> Sig { Sig { kind: Kind::Bresenham, a: tag::<$p>(), b: tag::<$t>(), n: $n } }
            fn args(w: &Words) -> Self::Args { (point(w, 0), point(w, 3)) }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, &[a.0]); put_points(l, &[a.1]); }
            fn pregenerated(a: &Self::Args) -> Self::Out { lines::$m::[<plot_ $n d_ $t _bresenham_line>](a.0, a.1) }
            fn generic(a: &Self::Args) -> Self::Out { lines::plot_bresenham_line::<$p, $t, $n>(a.0, a.1) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { exp_points::<$t, $n>(r, true, l) }
            fn out(o: &Self::Out, l: &mut Log) { put_result(o, l) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                // short lines near the origin and (as far as the precision has whole numbers) far from it
                let f = [1.0, 0.25, 1.0 / 3.0, 0.125][g.below(4) as usize] as $p;
                let far = |g: &mut Gen| {
                    let big = [0.0, 0.0, 131.0, 251.0, 65_533.0, 4_000_037.0, 2147483647.0, 4294967290.0, 1.0e13, 2.0e15];
                    let x = big[g.below(if $p::MANTISSA_DIGITS > 30 { 10 } else { 6 }) as usize] as $p;
                    if g.flag() { x } else { -x }
                };
                let off = core::array::from_fn::<$p, $n, _>(|_| far(g));
                let c = |g: &mut Gen| Point::from(core::array::from_fn::<$p, $n, _>(|k| (g.below(41) as $p - 20.0) * f + off[k]));
                (c(g), c(g))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
} } }
line_cases!(lines_2d_single, single_precision, f32, 2; i32 i64 isize u32 u64 usize f32 f64);
line_cases!(lines_3d_single, single_precision, f32, 3; i32 i64 isize u32 u64 usize f32 f64);
line_cases!(lines_2d_double, double_precision, f64, 2; i32 i64 isize u32 u64 usize f32 f64);
line_cases!(lines_3d_double, double_precision, f64, 3; i32 i64 isize u32 u64 usize f32 f64);

macro_rules! float_cases { ($($m:ident $p:ident),*) => {
    pub fn pip_ones<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Point2<$p>, Cloud<$p, 2>);
            type Out = bool;
            fn name() -> &'static str { concat!("polygons::", stringify!($m), "::is_single_point_in_polygon") }
            fn sig() -> Sig { Sig { kind: Kind::PipOne, a: tag::<$p>(), b: tag::<$p>(), n: 2 } }
            fn args(w: &Words) -> Self::Args { (point(w, 0), cloud_of(w, 2, w[6])) }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, &[a.0]); put_points(l, slice(&a.1)); }
            fn pregenerated(a: &Self::Args) -> Self::Out { polygons::$m::is_single_point_in_polygon(&a.0, slice(&a.1)) }
            fn generic(a: &Self::Args) -> Self::Out { polygons::is_single_point_in_polygon::<$p>(&a.0, slice(&a.1)) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { l.push(r[0] & 1) }
            fn out(o: &Self::Out, l: &mut Log) { l.push(*o as u64) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let (n, m) = (g.len(), g.below(3));
                (cloud(g, 1, m)[0], cloud(g, n, m))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
    pub fn pip_manys<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Cloud<$p, 2>, Cloud<$p, 2>);
            type Out = Option<Vec<bool>>;
            fn name() -> &'static str { concat!("polygons::", stringify!($m), "::are_multiple_points_in_polygon") }
            fn sig() -> Sig { Sig { kind: Kind::PipMany, a: tag::<$p>(), b: tag::<$p>(), n: 2 } }
            fn args(w: &Words) -> Self::Args { (cloud_of(w, 0, w[4]), cloud_of(w, 5, w[9])) }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, slice(&a.0)); put_points(l, slice(&a.1)); }
            fn pregenerated(a: &Self::Args) -> Self::Out { polygons::$m::are_multiple_points_in_polygon(slice(&a.0), slice(&a.1)) }
            fn generic(a: &Self::Args) -> Self::Out { polygons::are_multiple_points_in_polygon::<$p>(slice(&a.0), slice(&a.1)) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) {
                let some = r[9] & 1 == 1;
                let n = if some { length(r) } else { 0 };
                let given = unsafe { &GIVEN };
                l.place(given.at, n);
                l.push(some as u64);
                l.push(n as u64);
                l.push(if n > 0 { r[1] & 1 } else { 0 });
                l.push(if n > 1 { r[2] & 1 } else { 0 });
                l.push(if n > 0 { given.probe[0] } else { 0 });
            }
            fn out(o: &Self::Out, l: &mut Log) {
                l.push(o.is_some() as u64);
                let s: &[bool] = match o { None => &[], Some(x) => x };
                l.push(s.len() as u64);
                #[cfg(kani)]
                {
                    l.place(s.as_ptr() as *const u8, s.len());
                    l.push(if s.len() > 0 { s[0] as u64 } else { 0 });
                    l.push(if s.len() > 1 { s[1] as u64 } else { 0 });
                    l.push(match place(unsafe { &rec::REC.ret }, s.len()) { Some(i) => s[i] as u64, None => 0 });
                }
                #[cfg(not(kani))]
                for b in s { l.push(*b as u64); }
            }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let (n, k, m) = (g.len(), g.len(), g.below(3));
                (cloud(g, n, m), cloud(g, k, m))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
    pub fn distances<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Point2<$p>, Point2<$p>, $p);
            type Out = $p;
            fn name() -> &'static str { concat!("geo::", stringify!($m), "::calculate_haversine_distance") }
            fn sig() -> Sig { Sig { kind: Kind::Distance, a: tag::<$p>(), b: tag::<$p>(), n: 2 } }
            fn args(w: &Words) -> Self::Args { (point(w, 0), point(w, 2), value(w[4])) }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, &[a.0]); put_points(l, &[a.1]); l.push(word(&a.2)); }
            fn pregenerated(a: &Self::Args) -> Self::Out { geo::$m::calculate_haversine_distance(a.0, a.1, a.2) }
            fn generic(a: &Self::Args) -> Self::Out { geo::calculate_haversine_distance::<$p>(a.0, a.1, a.2) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { l.push(low::<$p>(r[0])) }
            fn out(o: &Self::Out, l: &mut Log) { l.push(word(o)) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let c = |g: &mut Gen| Point2::new((g.below(180_001) as $p - 90_000.0) / 1000.0, (g.below(360_001) as $p - 180_000.0) / 1000.0);
                (c(g), c(g), [1.0, 6371.0, 3958.8][g.below(3) as usize])
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
    pub fn bearings<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Point2<$p>, Point2<$p>);
            type Out = $p;
            fn name() -> &'static str { concat!("geo::", stringify!($m), "::calculate_sphere_bearing") }
            fn sig() -> Sig { Sig { kind: Kind::Bearing, a: tag::<$p>(), b: tag::<$p>(), n: 2 } }
            fn args(w: &Words) -> Self::Args { (point(w, 0), point(w, 2)) }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, &[a.0]); put_points(l, &[a.1]); }
            fn pregenerated(a: &Self::Args) -> Self::Out { geo::$m::calculate_sphere_bearing(a.0, a.1) }
            fn generic(a: &Self::Args) -> Self::Out { geo::calculate_sphere_bearing::<$p>(a.0, a.1) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { l.push(low::<$p>(r[0])) }
            fn out(o: &Self::Out, l: &mut Log) { l.push(word(o)) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let c = |g: &mut Gen| Point2::new((g.below(180_001) as $p - 90_000.0) / 1000.0, (g.below(360_001) as $p - 180_000.0) / 1000.0);
                (c(g), c(g))
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
} }
float_cases!(single_precision f32, double_precision f64);

macro_rules! icp_cases { ($list:ident, $n:literal, $r:ident; $($m:ident $p:ident),*) => { paste::paste! {
    pub fn $list<V: Visitor>(v: &mut V) { $({
        struct C;
        impl Case for C {
            type Args = (Cloud<$p, $n>, Cloud<$p, $n>, pc::ICPConfiguration<$p>);
            type Out = pc::ICPResult<$p, nalgebra::$r<$p>, $n>;
            fn name() -> &'static str { concat!("point_clouds::", stringify!($m), "::icp_", $n, "d") }
            fn sig() -> Sig { Sig { kind: Kind::Icp, a: tag::<$p>(), b: tag::<$p>(), n: $n } }
            fn args(w: &Words) -> Self::Args {
                let c = pc::ICPConfiguration::<$p>::builder()
                    .with_kd_tree(w[12] & 1 == 1)
                    .with_max_iterations(w[13] as usize)
                    .with_absolute_mse_threshold((w[12] & 2 == 2).then_some(value(w[14])))
                    .with_mse_interval_threshold(value(w[15]))
                    .build();
                (cloud_of(w, 0, w[12] >> 2), cloud_of(w, 6, w[12] >> 10), c)
            }
            fn log(a: &Self::Args, l: &mut Log) { put_points(l, slice(&a.0)); put_points(l, slice(&a.1)); put_config(l, &a.2); }
            fn pregenerated(a: &Self::Args) -> Self::Out { pc::$m::[<icp_ $n d>](slice(&a.0), slice(&a.1), a.2.clone()) }
            fn generic(a: &Self::Args) -> Self::Out { pc::icp::<$p, $n>(slice(&a.0), slice(&a.1), a.2.clone()) }
            #[cfg(kani)]
            fn canned(r: &[u64; 10], l: &mut Log) { exp_icp::<$p, nalgebra::$r<$p>, $n>(r, l) }
            fn out(o: &Self::Out, l: &mut Log) { put_icp(o, l) }
            #[cfg(not(kani))]
            fn sample(g: &mut Gen) -> Self::Args {
                let (n, k) = (g.len(), g.len());
                let b = pc::ICPConfiguration::<$p>::builder()
                    .with_kd_tree(g.flag())
                    .with_max_iterations([0, 1, 2, 5, 20][g.below(5) as usize]);
                let b = if g.flag() { b.with_absolute_mse_threshold([None, Some(1.0), Some(1e-3), Some(100.0), Some(0.0)][g.below(5) as usize]) } else { b };
                let b = if g.flag() { b.with_mse_interval_threshold([0.5, 1e-4, 0.0, 10.0][g.below(4) as usize]) } else { b };
                (cloud(g, n, 1), cloud(g, k, 1), b.build())
            }
            #[cfg(not(kani))]
            fn show(a: &Self::Args) -> String { format!("{a:?}") }
        }
        v.visit::<C>();
    })* }
} } }
icp_cases!(icps_2d, 2, UnitComplex; single_precision f32, double_precision f64);
icp_cases!(icps_3d, 3, UnitQuaternion; single_precision f32, double_precision f64);
