//! Recorders standing in for the generic functions, and the harnesses.
use crate::cases::*;
use crate::*;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::*;
use nalgebra::{Isometry, Point, Point2, RealField};

pub struct Rec {
    pub calls: usize,
    pub sig: Option<Sig>,
    pub log: Log,
    pub ret: [u64; 10],
}
pub static mut REC: Rec = Rec { calls: 0, sig: None, log: Log::new(), ret: [0; 10] };

fn begin(sig: Sig) -> &'static mut Rec {
    let r = unsafe { &mut REC };
    r.calls += 1;
    let named = r.sig == Some(sig);
    assert!(named, "C28 the precision and types are the named ones");
    // nothing further is asked of another instantiation's result
    kani::assume(named);
    r.log = Log::new();
    r
}
pub fn graham<O: Copy + 'static, T: Copy + nalgebra::Scalar>(points: &[Point2<T>], sorted: bool, voxel: Option<O>) -> Option<Vec<Point2<T>>> {
    let r = begin(Sig { kind: Kind::Graham, a: tag::<O>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, points);
    r.log.push(sorted as u64);
    put_opt(&mut r.log, &voxel);
    ret_points(&r.ret)
}
pub fn jarvis<O: Copy + 'static, T: Copy + nalgebra::Scalar>(points: &[Point2<T>], voxel: Option<O>) -> Option<Vec<Point2<T>>> {
    let r = begin(Sig { kind: Kind::Jarvis, a: tag::<O>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, points);
    put_opt(&mut r.log, &voxel);
    ret_points(&r.ret)
}
pub fn bresenham<F: RealField, T: nalgebra::Scalar + Copy, const N: usize>(a: Point<F, N>, b: Point<F, N>) -> Vec<Point<T, N>>
where
    F: Copy,
{
    let r = begin(Sig { kind: Kind::Bresenham, a: tag::<F>(), b: tag::<T>(), n: N });
    put_points(&mut r.log, &[a]);
    put_points(&mut r.log, &[b]);
    ret_vec(&r.ret)
}
pub fn pip_one<T: Copy + RealField>(p: &Point2<T>, poly: &[Point2<T>]) -> bool {
    let r = begin(Sig { kind: Kind::PipOne, a: tag::<T>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, &[*p]);
    put_points(&mut r.log, poly);
    r.ret[0] & 1 == 1
}
pub fn pip_many<T: Copy + RealField>(p: &[Point2<T>], poly: &[Point2<T>]) -> Option<Vec<bool>> {
    let r = begin(Sig { kind: Kind::PipMany, a: tag::<T>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, p);
    put_points(&mut r.log, poly);
    ret_bools(&r.ret)
}
pub fn distance<T: Copy + nalgebra::Scalar>(a: Point2<T>, b: Point2<T>, radius: T) -> T {
    let r = begin(Sig { kind: Kind::Distance, a: tag::<T>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, &[a]);
    put_points(&mut r.log, &[b]);
    r.log.push(word(&radius));
    value(r.ret[0])
}
pub fn bearing<T: Copy + nalgebra::Scalar>(a: Point2<T>, b: Point2<T>) -> T {
    let r = begin(Sig { kind: Kind::Bearing, a: tag::<T>(), b: tag::<T>(), n: 2 });
    put_points(&mut r.log, &[a]);
    put_points(&mut r.log, &[b]);
    value(r.ret[0])
}
pub fn icp_rec<T, const N: usize>(
    a: &[Point<T, N>],
    b: &[Point<T, N>],
    config: ICPConfiguration<T>,
) -> ICPResult<T, <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType, N>
where
    T: Copy + RealField,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
{
    let r = begin(Sig { kind: Kind::Icp, a: tag::<T>(), b: tag::<T>(), n: N });
    put_points(&mut r.log, a);
    put_points(&mut r.log, b);
    put_config(&mut r.log, &config);
    ret_icp(&r.ret)
}

fn prove<C: Case>(w: &Words) {
    let a = C::args(w);
    let ret: [u64; 10] = kani::any();
    unsafe {
        REC.calls = 0;
        REC.sig = Some(C::sig());
        REC.ret = ret;
    }
    let got = C::pregenerated(&a);
    let rec = unsafe { &REC };
    assert!(rec.calls == 1, "C28 the pregenerated function calls its generic counterpart once");
    let mut want = Log::new();
    C::log(&a, &mut want);
    assert!(rec.log.same(&want), "C28 the arguments are passed through unchanged");
    let mut out = Log::new();
    C::out(&got, &mut out);
    let mut exp = Log::new();
    C::canned(&ret, &mut exp);
    assert!(out.same(&exp), "C28 the result is handed back unchanged");
    kani::cover!(true, "reached");
}

struct Prove<'a> {
    w: &'a Words,
    left: isize,
    at: isize,
}
impl Visitor for Prove<'_> {
    fn visit<C: Case>(&mut self) {
        if self.left == self.at || self.left == self.at + 1 {
            prove::<C>(self.w)
        }
        self.at += 1;
    }
}
macro_rules! harness {
    ($real:path, $rec:path, $list:ident, $($i:literal)*) => { paste::paste! { $(
        #[kani::proof]
        #[kani::stub($real, $rec)]
        #[kani::unwind(8)]
        fn [<pre_ $list _ $i>]() {
            let w: Words = kani::any();
            $list(&mut Prove { w: &w, left: $i + 1, at: 0 });
        }
    )* } };
}
harness!(mapping_algorithms::polygons::graham_scan::graham_scan, graham, graham_single, 0 2 4 6 8 10);
harness!(mapping_algorithms::polygons::graham_scan::graham_scan, graham, graham_double, 0 2 4 6 8 10);
harness!(mapping_algorithms::polygons::jarvis_march::jarvis_march, jarvis, jarvis_single, 0 2 4 6 8 10);
harness!(mapping_algorithms::polygons::jarvis_march::jarvis_march, jarvis, jarvis_double, 0 2 4 6 8 10);
harness!(mapping_algorithms::lines::plot_bresenham_line, bresenham, lines_2d_single, 0 2 4 6);
harness!(mapping_algorithms::lines::plot_bresenham_line, bresenham, lines_3d_single, 0 2 4 6);
harness!(mapping_algorithms::lines::plot_bresenham_line, bresenham, lines_2d_double, 0 2 4 6);
harness!(mapping_algorithms::lines::plot_bresenham_line, bresenham, lines_3d_double, 0 2 4 6);
harness!(mapping_algorithms::polygons::is_single_point_in_polygon, pip_one, pip_ones, 0);
harness!(mapping_algorithms::polygons::are_multiple_points_in_polygon, pip_many, pip_manys, 0);
harness!(mapping_algorithms::geo::calculate_haversine_distance, distance, distances, 0);
harness!(mapping_algorithms::geo::calculate_sphere_bearing, bearing, bearings, 0);
harness!(mapping_algorithms::point_clouds::icp::icp, icp_rec, icps_2d, 0);
harness!(mapping_algorithms::point_clouds::icp::icp, icp_rec, icps_3d, 0);
