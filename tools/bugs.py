"""The planted bugs: written from the properties and the code, see plant.py."""
PRE = r'''
#![allow(unused_imports)]
use mapping_algorithms::{geo::*, kd_tree::KDTree, lines::*, point_clouds::*, polygons::*};
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, Vector2, Vector3};
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + "fn main() {" + demo + "}\n", **kw))

RNG = r'''
    let mut state = 12345u64;
    let mut rnd = move || { state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((state >> 40) % 2000) as f64 / 10.0 - 100.0 };
'''
bug("kd-count-from-slice", "C02", [("kd_tree/mod.rs", '''        point_cloud
            .iter()
            .copied()
            .fold(Self::default(), |mut tree, current_point| {
                tree.insert(current_point);
                tree
            })''', '''        let mut tree = point_cloud
            .iter()
            .copied()
            .fold(Self::default(), |mut tree, current_point| {
                tree.insert(current_point);
                tree
            });
        tree.element_count = point_cloud.len();
        tree''')],
    "a slice with a repeated point", "building from a slice counts repeated points",
    r'''
    let p = |x, y| Point2::new(x, y);
    let tree = KDTree::from([p(0.0, 0.0), p(1.0, 2.0), p(0.0, 0.0), p(2.0, 1.0)].as_slice());
    let mut n = 0;
    tree.traverse_tree(|_| n += 1);
    assert_eq!((tree.len(), n), (3, 3));
''')
bug("kd-mut-unchanged", "C03", [("kd_tree/mod.rs", '''        func(&mut self.internal_data);
        if let''', '''        let before = self.internal_data;
        func(&mut self.internal_data);
        if self.internal_data == before && self.left.is_none() {
            return; // untouched, nothing to propagate
        }
        if let''')],
    "a callback that leaves the point of a node with only a right branch unchanged",
    "the mutable traversal skips the right branch of such nodes",
    r'''
    let p = |x, y| Point2::new(x, y);
    let mut tree = KDTree::from([p(0.0, 0.0), p(1.0, 2.0), p(2.0, 1.0)].as_slice());
    let mut n = 0;
    tree.traverse_tree_mut(|q| { n += 1; if q.x > 0.5 { q.y = 9.0 } });
    assert_eq!(n, 3);
    tree.traverse_tree(|q| assert!(q.x < 0.5 || q.y == 9.0));
''')
bug("pip-closed-ray", "C10", [("polygons/point_in_polygon.rs", "if point.y > vertex1.y.min(vertex2.y)", "if point.y >= vertex1.y.min(vertex2.y)")],
    "a ray that passes through a vertex", "both edges at the vertex are counted (and the half-open rule is lost)",
    r'''
    let p = |x, y| Point2::new(x, y);
    let poly = [p(0.0, 0.0), p(2.0, -2.0), p(4.0, 0.0), p(2.0, 2.0)];
    assert!(is_single_point_in_polygon(&p(1.0, 0.0), &poly));
    assert!(!is_single_point_in_polygon(&p(-1.0, 0.0), &poly));
    assert!(!is_single_point_in_polygon(&p(-1.0, 2.0), &poly));
    assert!(!is_single_point_in_polygon(&p(-1.0, -2.0), &poly));
    assert!(!is_single_point_in_polygon(&p(1.0, -2.0), &poly));
''')
bug("pip-extents-open-ring", "C11", [("polygons/point_in_polygon.rs", "let polygon_extents = calculate_polygon_extents(polygon)?;", '''// A closed ring repeats its first vertex
    let ring = if polygon.len() > 3 {
        &polygon[..polygon.len() - 1]
    } else {
        polygon
    };
    let polygon_extents = calculate_polygon_extents(ring)?;''')],
    "a polygon of four or more vertices whose last one alone attains an extent", "points near the last vertex are reported outside by the batch test only",
    r'''
    let p = |x, y| Point2::new(x, y);
    let poly = [p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(2.0, 9.0)];
    let pts = [p(2.5, 7.0), p(1.0, 1.0), p(9.0, 9.0)];
    let single: Vec<bool> = pts.iter().map(|q| is_single_point_in_polygon(q, &poly)).collect();
    assert_eq!(are_multiple_points_in_polygon(&pts, &poly).unwrap(), single);
    assert!(single[0] && single[1] && !single[2]);
''')
bug("extents-positive-min", "C12", [("polygons/mod.rs", "<T as Bounded>::max_value()..=<T as Bounded>::min_value()", "<T as Bounded>::max_value()..=T::default_epsilon()")],
    "a polygon with only negative coordinates along an axis", "the maximum starts at the smallest positive step instead of the lowest value",
    r'''
    let p = |x, y| Point2::new(x, y);
    let e = calculate_polygon_extents(&[p(-3.0, 1.0), p(-2.0, 4.0), p(-5.0, 2.0)]).unwrap();
    assert_eq!((*e[0].start(), *e[0].end(), *e[1].start(), *e[1].end()), (-5.0, -2.0, 1.0, 4.0));
''')
bug("bresenham-drop-repeat", "C15", [("lines/bresenham.rs", '''    points.push(end_point.map(|element| element.as_()));
    points''', '''    let last = end_point.map(|element| element.as_());
    if points.last() != Some(&last) {
        points.push(last);
    }
    points''')],
    "an off-grid line whose last two points truncate to the same cell of an integer output type", "the number of points is one short",
    r'''
    let l = plot_bresenham_line::<f64, i32, 2>(Point2::new(-0.7, 0.0), Point2::new(0.6, 0.0));
    assert_eq!(l.len(), 2, "{l:?}");
''')
bug("center-single", "C17", [("point_clouds/mod.rs", "    if points.is_empty() {\n        return Point::default();", "    if points.len() < 2 {\n        return Point::default();")],
    "a cloud of exactly one point", "the centre of a single point is the origin",
    r'''
    assert_eq!(calculate_point_cloud_center(&[Point2::new(3.0, 4.0)]), Point2::new(3.0, 4.0));
    assert_eq!(calculate_point_cloud_center::<f64, 2>(&[]), Point2::new(0.0, 0.0));
''')
bug("transform-pairs", "C18", [("point_clouds/mod.rs", '''        .iter()
        .map(|point| isometry_matrix.transform_point(point))''', '''        .chunks_exact(2)
        .flatten()
        .map(|point| isometry_matrix.transform_point(point))''')],
    "a cloud with an odd number of points", "the last point of odd clouds is dropped",
    r'''
    let c = [Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(3.0, 0.0)];
    let t = transform_point_cloud(&c, Isometry2::new(Vector2::new(1.0, 1.0), 0.0));
    assert_eq!(t.len(), 3);
''')
bug("generate-axis-mixup", "C19", [("point_clouds/mod.rs", "rng.gen_range(ranges[idx].clone())", "rng.gen_range(ranges[idx % 2].clone())")],
    "three or more axes with different ranges", "the third axis uses the range of the first",
    r'''
    let c = generate_point_cloud(50, [0.0..=1.0f64, 2.0..=3.0, 4.0..=5.0]);
    assert!(c.iter().all(|p| (0.0..=1.0).contains(&p.x) && (2.0..=3.0).contains(&p.y) && (4.0..=5.0).contains(&p.z)));
''')
bug("icp-abs-threshold-eps", "C20", [("point_clouds/icp/mod.rs", "thres.is_nan() || thres <= T::default_epsilon()", "thres.is_nan() || thres < T::default_epsilon()")],
    "an absolute threshold of exactly machine epsilon", "the boundary value is accepted",
    r'''
    let c = [Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(3.0, 1.0)];
    let conf = ICPConfiguration::builder().with_absolute_mse_threshold(Some(f64::EPSILON)).build();
    assert!(matches!(icp(&c, &c, conf), Err(ICPError::MSEAbsoluteThreshold)));
''')
bug("icp-signed-interval", "C21", [("point_clouds/icp/mod.rs", "|| <T as ComplexField>::abs(*current_mse - new_mse) < config.mse_interval_threshold", "|| *current_mse - new_mse < config.mse_interval_threshold")],
    "an iteration after which the error has grown", "a growing error counts as converged",
    r'''
    let a = [Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(3.0, 5.0)];
    let b = [Point2::new(0.0, 9.0), Point2::new(2.0, 0.0), Point2::new(7.0, 1.0)];
    let conf = ICPConfiguration::builder().with_mse_interval_threshold(0.5).build();
    let mut mse = 0.001;
    let mut t = Isometry2::identity();
    let mut cur = a;
    let r = icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf);
    assert!(r.is_err());
    assert!(mse > 1.0);
''')
bug("icp-reports-previous", "C22", [("point_clouds/icp/mod.rs", '''                transform: current_transform,
                mse,''', '''                transform: current_transform,
                mse: mse.min(current_mse),''')],
    "a converged iteration whose error is slightly larger than the previous one", "the reported error is not that of the reported transform",
    RNG + r'''
    for round in 0..3000 {
        let n = 4 + round % 5;
        let a: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(rnd(), rnd())).collect();
        let b: Vec<Point2<f64>> = (0..n + 2).map(|_| Point2::new(rnd(), rnd())).collect();
        let conf = || ICPConfiguration::builder().with_max_iterations(40).with_mse_interval_threshold(2000.0).build();
        if let Ok(s) = icp(&a, &b, conf()) {
            // replay
            let (mut cur, mut t, mut mse) = (a.clone(), Isometry2::identity(), f64::MAX);
            for _ in 0..s.iteration_num { assert!(icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf()).is_err()); }
            let last = icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf()).ok().unwrap();
            assert_eq!(last, s.mse);
        }
    }
''')
bug("haversine-wrap", "C25", [("geo/haversine.rs", "let delta_lon = point_b.y - point_a.y;", "let half_turn = (0..180).fold(T::zero(), |sum, _| sum + T::one());\n    let delta_lon = (point_b.y - point_a.y) % half_turn;")],
    "longitudes that differ by more than half a turn", "pairs on both sides of the antimeridian are measured the wrong way",
    r'''
    let d = calculate_haversine_distance(Point2::new(0.0, -170.0), Point2::new(0.0, 170.0), 1.0f64);
    assert!((d - 20f64.to_radians()).abs() < 1e-9, "{d}");
''')
bug("bearing-negative", "C26", [("geo/haversine.rs", "(<T as Float>::atan2(x, y) + T::two_pi()) % T::two_pi()", "<T as Float>::atan2(x, y) % T::two_pi()")],
    "a destination to the west", "westward bearings are negative",
    r'''
    let b = calculate_sphere_bearing(Point2::new(0.0, 10.0), Point2::new(0.0, 0.0f64));
    assert!((0.0..std::f64::consts::TAU).contains(&b), "{b}");
''')
bug("pregenerated-sorted-flag", "C28", [("polygons/graham_scan.rs", "super::graham_scan::<$prec, $t>(input, assume_sorted, voxel_size)", "super::graham_scan::<$prec, $t>(input, assume_sorted || voxel_size.is_none() && input.len() == 3, voxel_size)")],
    "a pregenerated Graham scan of exactly three unsorted points", "three unsorted points are taken for sorted",
    r'''
    let p = |x, y| Point2::new(x, y);
    let c = [p(2.0, 0.0), p(0.0, 0.0), p(1.0, 3.0)];
    assert_eq!(mapping_algorithms::polygons::double_precision::graham_scan_f64(&c, false, None), graham_scan::<f64, f64>(&c, false, None));
''')
bug("builder-keeps-absolute", "C29", [("point_clouds/icp/types.rs", '''                mse_absolute_threshold,
                ..self''', '''                mse_absolute_threshold: mse_absolute_threshold.or(self._internal.mse_absolute_threshold),
                ..self''')],
    "setting an absolute threshold and then removing it again", "None does not remove the threshold",
    r'''
    let c = [Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(3.0, 1.0)];
    let conf = ICPConfiguration::builder().with_absolute_mse_threshold(Some(-1.0)).with_absolute_mse_threshold(None).build();
    assert!(icp(&c, &c, conf).is_ok());
''')
bug("jarvis-voxel-fallback", "C08", [("polygons/jarvis_march.rs", "points_downsampled_slice = points_downsampled.as_slice();", '''points_downsampled_slice = if points_downsampled.len() > 3 {
            points_downsampled.as_slice()
        } else {
            points // too coarse to be useful
        };''')],
    "a voxel size that leaves three points or fewer", "the voxel size is silently ignored",
    r'''
    let p = |x, y| Point2::new(x, y);
    let c = [p(0.1, 0.1), p(0.9, 0.2), p(0.5, 0.8), p(0.3, 0.7)];
    assert_eq!(jarvis_march::<f64, f64>(&c, Some(1.0)), None);
''')
bug("graham-int-dedup", "C09", [("polygons/graham_scan.rs", '''    accumulator.push_back(current_point);
    accumulator''', '''    // Repeated points add nothing
    if accumulator.back().map_or(true, |last| {
        !(current_point.x - last.x).is_zero() || !(current_point.y - last.y).is_zero()
    }) {
        accumulator.push_back(current_point);
    }
    accumulator''')],
    "unsigned (or wide-ranging signed) integer coordinates", "the difference of two coordinates overflows their own type",
    r'''
    let p = |x: u8, y: u8| Point2::new(x, y);
    assert_eq!(graham_scan::<f32, u8>(&[p(0, 0), p(200, 3), p(100, 250)], false, None).map(|h| h.len()), Some(3));
''')
bug("downsample-pairwise", "C16", [("point_clouds/downsample.rs", """            let num_points = points_in_voxel.len().as_();
            let sum = points_in_voxel
                .into_iter()
                .fold(Point::default(), |acc, p| acc + p.coords);
            sum / num_points""", """            let two = 2.as_();
            points_in_voxel
                .into_iter()
                .reduce(|mean, p| (mean + p.coords) / two)
                .unwrap_or_default()""")],
    "three or more points in one voxel", "the average is taken pairwise, so later points weigh more",
    r"""
    let p = |x, y| Point2::new(x, y);
    assert_eq!(downsample_point_cloud_voxel(&[p(0.0, 0.0), p(0.0, 0.75), p(0.75, 0.0)], 1.0), vec![p(0.25, 0.25)]);
""")
bug("downsample-reciprocal", "C16", [("point_clouds/downsample.rs", "(AsPrimitive::<O>::as_(point[idx]) / voxel_size)", "(AsPrimitive::<O>::as_(point[idx]) * voxel_size.recip())")],
    "a point exactly on a voxel boundary and a voxel size whose reciprocal is not exact", "the point falls into the voxel below",
    r"""
    let p = |x, y| Point2::new(x, y);
    assert_eq!(downsample_point_cloud_voxel(&[p(49.0, 0.0), p(50.0, 0.0)], 49.0f64).len(), 1);
""")
bug("bresenham-towards-origin", "C13", [("lines/bresenham.rs", """    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
        >= F::one()
    {""", """    while <F as ComplexField>::abs(current_point[primary_axis]) + F::one()
        <= <F as ComplexField>::abs(end_point[primary_axis])
    {""")],
    "a line whose start is not nearer to the origin than its end along the longest axis", "only the end point is plotted",
    r"""
    let l = plot_bresenham_line::<f64, i32, 2>(Point2::new(5.0, 0.0), Point2::new(2.0, 1.0));
    assert_eq!(l.len(), 4);
""")
bug("bresenham-fixed-point-slope", "C14", [("lines/bresenham.rs", "errors[axis] += deltas[axis] / deltas[primary_axis];", """// Fixed point, so that the sum of errors is exact
            let fraction: F = 64.as_();
            errors[axis] +=
                (deltas[axis] / deltas[primary_axis] * fraction).round() / fraction;""")],
    "a line longer than about forty cells with an unfavourable slope", "the rounded slope drifts away from the ideal line",
    r"""
    for (dx, dy) in [(100i32, 1i32), (110, 31), (127, 40), (99, 50), (300, 1), (1000, 7), (900, 411)] {
        let l = plot_bresenham_line::<f64, f64, 2>(Point2::new(0.0, 0.0), Point2::new(dx as f64, dy as f64));
        for (i, p) in l.iter().enumerate() {
            assert!((p.y - i as f64 * dy as f64 / dx as f64).abs() < 1.0, "{dx} {dy} {p}");
        }
    }
""")
bug("nan-quiet", "C27", [("types/is_nan.rs", """            fn is_nan(self) -> bool {
                self.is_nan()""", """            fn is_nan(self) -> bool {
                self.to_bits() & <$t>::NAN.to_bits() == <$t>::NAN.to_bits()""")],
    "a signalling NaN", "only quiet NaNs are recognised",
    r"""
    use mapping_algorithms::types::IsNan;
    assert!(IsNan::is_nan(f64::NAN) && IsNan::is_nan(-f64::NAN) && IsNan::is_nan(f32::from_bits(0x7f800001)));
    assert!(!IsNan::is_nan(f64::MAX) && !IsNan::is_nan(f64::NEG_INFINITY) && !IsNan::is_nan(3u8));
""")
bug("jarvis-close-on-equal-x", "C07", [("polygons/jarvis_march.rs", "        if current_vertex == &hull[0] {", "        if current_vertex.x == hull[0].x && hull.len() > 2 {")],
    "a hull with a vertical left edge of four points or more", "the march stops early",
    r"""
    let p = |x, y| Point2::new(x, y);
    let c = [p(0.0, 0.0), p(0.0, 1.0), p(0.0, 2.0), p(0.0, 3.0), p(4.0, 0.0), p(4.0, 3.0)];
    let h = jarvis_march::<f64, f64>(&c, None).unwrap();
    for q in [c[3], c[4], c[5]] { assert!(h.contains(&q), "{h:?}"); }
""")
bug("kd-unsquared-prune", "C01", [("kd_tree/mod.rs", "if (axis_distance * axis_distance) < distance_squared(&best, target) {", "if axis_distance < distance_squared(&best, target) {")],
    "a near-branch answer less than one unit away and a nearer point to the left of the split", "the far branch is pruned by comparing a distance with a squared distance",
    RNG + r"""
    for _ in 0..300 {
        let cloud: Vec<Point2<f64>> = (0..40).map(|_| Point2::new(rnd() / 100.0, rnd() / 100.0)).collect();
        let tree = KDTree::from(cloud.as_slice());
        for _ in 0..20 {
            let q = Point2::new(rnd() / 100.0, rnd() / 100.0);
            let got = tree.nearest(&q).unwrap();
            let d = |p: &Point2<f64>| (p - q).norm_squared();
            assert!(cloud.iter().all(|p| d(p) >= d(&got)), "{q} -> {got}");
        }
    }
""")
bug("icp-kd-zero-start", "C23", [("point_clouds/icp/mod.rs", "let mut current_mse = <T as Bounded>::max_value();", """let mut current_mse = if target_points_tree.is_some() {
        T::zero()
    } else {
        <T as Bounded>::max_value()
    };""")],
    "a first iteration whose error is below the interval threshold, with the KD-tree enabled", "registration with the tree stops one iteration early",
    r"""
    let c = [Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(3.0, 1.0)];
    let run = |kd| icp(&c, &c, ICPConfiguration::builder().with_kd_tree(kd).build()).unwrap().iteration_num;
    assert_eq!(run(true), run(false));
""")
bug("naive-limit", "C04", [("point_clouds/nearest_neighbour.rs", "let mut current_distance = T::max_value();", """let mut current_distance = distance_squared(&all_points[0], &all_points[all_points.len() - 1]);
    if all_points.len() < 4 {
        current_distance = T::max_value();
    }""")],
    "a slice of four or more whose ends are nearer to each other than the query is to any point", "points farther than that are never taken, so the first one is returned",
    r"""
    let p = |x, y| Point2::new(x, y);
    assert_eq!(find_nearest_neighbour_naive(&p(100.0, 0.0), &[p(0.0, 0.0), p(5.0, 0.0), p(9.0, 0.0), p(3.0, 0.0)]), Some(p(9.0, 0.0)));
""")
bug("sort-single-nan", "C05", [("point_clouds/lex_sort.rs", """) -> bool {
    if !validate_input(input) {
        return false;""", """) -> bool {
    if input.len() < 2 {
        return !N.is_zero(); // already sorted
    }

    if !validate_input(input) {
        return false;""")],
    "a slice of one point with a NaN coordinate", "the in-place sort accepts it",
    r"""
    assert!(!lex_sort_in_place(&mut [Point2::new(0.0, f64::NAN)]));
    assert!(lex_sort_in_place(&mut [Point2::new(0.0, 1.0)]));
""")
bug("graham-epsilon", "C06", [("polygons/graham_scan.rs", ") <= O::zero()", ") <= nalgebra::convert::<f64, O>(1e-9)")],
    "a hull corner whose orientation determinant is tiny (coordinates around 1e-5)", "such corners are dropped, small clouds have no hull",
    r"""
    let p = |x, y| Point2::new(x, y);
    let hull = graham_scan::<f32, f32>(&[p(0.0, 0.0), p(0.00002, 0.0), p(0.0, 0.00002)], false, None);
    assert_eq!(hull.map(|h| h.len()), Some(3));
""")
bug("svd-singular-identity", "C24", [("types/isometry.rs", """        rot_mat: &SMatrix<T, 2, 2>,
    ) -> Isometry<T, Self::RotType, 2> {
        let svd = rot_mat.svd(true, true);
        let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());""", """        rot_mat: &SMatrix<T, 2, 2>,
    ) -> Isometry<T, Self::RotType, 2> {
        let svd = rot_mat.svd(true, true);
        let rotation = if rot_mat.determinant().abs() <= T::default_epsilon() {
            SMatrix::identity() // the rotation cannot be determined
        } else {
            verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap())
        };""")],
    "collinear matched pairs in 2D", "the rotation between two collinear clouds is ignored",
    r"""
    let a = [Point2::new(0.0, 0.0), Point2::new(1.0, 0.0), Point2::new(3.0, 0.0)];
    let b = [Point2::new(0.0, 0.0), Point2::new(0.8, 0.6), Point2::new(2.4, 1.8)];
    let conf = ICPConfiguration::builder().with_max_iterations(1).with_mse_interval_threshold(1e-9).build();
    let mut cur = a;
    let (mut t, mut mse) = (Isometry2::identity(), f64::MAX);
    let _ = icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf);
    assert!(mse < 1e-9, "{mse}");
""")
# second round
bug("kd-axis-cap", "C01", [("kd_tree/mod.rs", """        let dimension_to_check = depth % N;
        let (next_branch, opposite_branch) =""", """        // The fourth dimension onwards rarely separates anything
        let dimension_to_check = depth % N.min(3);
        let (next_branch, opposite_branch) =""")],
    "four or more dimensions and a tree four levels deep", "the query splits on other axes than the insertion did",
    r"""
    let pts: Vec<Point<f64, 4>> = vec![[0.0, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0], [2.0, 2.0, 2.0, 2.0], [3.0, 3.0, 3.0, 3.0], [4.0, 4.0, 4.0, 2.5], [5.0, 4.5, 5.0, 9.0]].into_iter().map(Point::from).collect();
    let tree = KDTree::from(pts.as_slice());
    for i in 0..4000 {
        let t = Point::from([(i % 7) as f64, (i / 7 % 8) as f64, (i / 56 % 8) as f64, (i % 11) as f64]);
        let d = |p: &Point<f64, 4>| (p - t).norm_squared();
        let best = pts.iter().map(d).fold(f64::MAX, f64::min);
        assert_eq!(d(&tree.nearest(&t).unwrap()), best);
    }
""")
bug("kd-traverse-depth", "C03", [("kd_tree/mod.rs", """        if let Some(left) = self.left.as_ref() {
            left.traverse_branch(func);
        }
        func(&self.internal_data);
        if let Some(right) = self.right.as_ref() {
            right.traverse_branch(func);
        }""", """        // Iterative, deep trees would overflow the call stack
        let mut stack: [Option<&Self>; 24] = [None; 24];
        let mut height = 0;
        let mut current = Some(self);
        while let Some(node) = current {
            if let Some(left) = node.left.as_ref().filter(|_| height < stack.len()) {
                stack[height] = Some(node);
                height += 1;
                current = Some(left.as_ref());
                continue;
            }
            func(&node.internal_data);
            current = node.right.as_deref();
            while current.is_none() && height > 0 {
                height -= 1;
                if let Some(parent) = stack[height].take() {
                    func(&parent.internal_data);
                    current = parent.right.as_deref();
                }
            }
        }""")],
    "a tree with more than 24 consecutive left branches", "points to the left of the deepest ones are not visited",
    r"""
    let pts: Vec<Point2<f64>> = (0..40).map(|i| Point2::new(-i as f64, -i as f64)).collect();
    for n in [1, 5, 40] {
        let tree = KDTree::from(&pts[..n]);
        let mut seen = 0;
        tree.traverse_tree(|_| seen += 1);
        assert_eq!(seen, n);
    }
""")
bug("naive-chunks", "C04", [("point_clouds/nearest_neighbour.rs", "for target_point in all_points.iter() {", """// Aligned chunks vectorize well, small clouds are not worth it
    let aligned = if all_points.len() < 16 {
        all_points.len()
    } else {
        all_points.len() / 4 * 4
    };
    for target_point in all_points[..aligned].iter() {""")],
    "a cloud of 17 or more points, not a multiple of four", "the last points are never considered",
    r"""
    let pts: Vec<Point2<f64>> = (0..18).map(|i| Point2::new(i as f64, 0.0)).collect();
    assert_eq!(find_nearest_neighbour_naive(&Point2::new(20.0, 0.0), &pts), Some(pts[17]));
""")
bug("naive-cap", "C04", [("point_clouds/nearest_neighbour.rs", "let mut current_distance = T::max_value();", "let mut current_distance = distance_squared(point, &all_points[0]);\n    let limit = current_distance * current_distance;"), ("point_clouds/nearest_neighbour.rs", "if distance < current_distance {", "if distance < current_distance && distance < limit {")],
    "a first point less than one unit away and a nearer one after it", "the nearer point is not below the limit",
    r"""
    let p = |x, y| Point2::new(x, y);
    assert_eq!(find_nearest_neighbour_naive(&p(0.0, 0.0), &[p(0.5, 0.0), p(0.3, 0.0)]), Some(p(0.3, 0.0)));
""")
bug("sort-three-axes", "C05", [("point_clouds/lex_sort.rs", "(0..N).fold(Ordering::Equal, |ord, i| {", "(0..N.min(3)).fold(Ordering::Equal, |ord, i| {")],
    "four or more dimensions and points equal in the first three", "points are ordered by three coordinates only",
    r"""
    let pts: Vec<Point<f64, 4>> = vec![Point::from([1.0, 1.0, 1.0, 2.0]), Point::from([1.0, 1.0, 1.0, 1.0])];
    assert_eq!(lex_sort(&pts).unwrap(), vec![pts[1], pts[0]]);
""")
bug("graham-pop-limit", "C06", [("polygons/graham_scan.rs", """    while accumulator.len() > 1
        &&""", """    // Sorted input removes few points at a time
    let mut removed = 0;
    while accumulator.len() > 1
        && removed < 4
        &&"""), ("polygons/graham_scan.rs", "        accumulator.pop_back();", "        accumulator.pop_back();\n        removed += 1;")],
    "a point that makes more than four hull candidates obsolete at once", "inner points stay on the hull",
    r"""
    let p = |x: f64, y: f64| Point2::new(x, y);
    let mut pts: Vec<Point2<f64>> = (0..8).map(|i| { let x = i as f64; p(x, x * (14.0 - x) / 10.0) }).collect();
    pts.push(p(8.0, 100.0));
    pts.push(p(8.0, -100.0));
    let hull = graham_scan::<f64, f64>(&pts, false, None).unwrap();
    assert_eq!(hull.len(), 3, "{hull:?}");
""")
bug("extents-pairs", "C12", [("polygons/mod.rs", """    for vertex in polygon {
        for""", """    for vertex in polygon
        .chunks(8)
        .flat_map(|chunk| chunk.iter().take(if polygon.len() > 16 { 7 } else { 8 }))
    {
        for""")],
    "a polygon of more than 16 vertices whose extreme vertex is the last of a group of eight", "every eighth vertex is ignored",
    r"""
    let mut pts: Vec<Point2<f64>> = (0..20).map(|i| Point2::new(i as f64 % 3.0, i as f64 % 5.0)).collect();
    pts[15] = Point2::new(50.0, -50.0);
    let e = calculate_polygon_extents(&pts).unwrap();
    assert_eq!((*e[0].end(), *e[1].start()), (50.0, -50.0));
""")
bug("bresenham-three-axes", "C13", [("lines/bresenham.rs", "for axis in 0..N {", "for axis in 0..N.min(primary_axis + 3) {")],
    "four or more dimensions with the longest axis first", "the fourth axis does not move until the end",
    r"""
    let line = plot_bresenham_line::<f64, i32, 4>(Point::from([0.0, 0.0, 0.0, 0.0]), Point::from([4.0, 0.0, 0.0, 3.0]));
    for w in line.windows(2) {
        assert!((0..4).all(|k| (w[0][k] - w[1][k]).abs() <= 1), "{line:?}");
    }
""")
bug("voxel-offset", "C16", [("point_clouds/downsample.rs", """            (AsPrimitive::<O>::as_(point[idx]) / voxel_size)
                .floor()
                .as_()""", """            // Truncation is cheaper than floor, move everything to the positive side first
            let bias: isize = 4096;
            let offset = (0..12).fold(O::one(), |offset, _| offset + offset);
            AsPrimitive::<isize>::as_(AsPrimitive::<O>::as_(point[idx]) / voxel_size + offset)
                - bias""")],
    "points more than 4096 voxels below the origin", "two voxels are merged around every such index",
    r"""
    for k in [-3.0, -5000.0f64] {
        let out = downsample_point_cloud_voxel::<f64, f64, 1>(&[Point::from([k - 0.5]), Point::from([k + 0.5])], 1.0);
        assert_eq!(out.len(), 2);
    }
    assert_eq!(downsample_point_cloud_voxel::<f64, f64, 1>(&[Point::from([-4096.5]), Point::from([-4095.5])], 1.0).len(), 2);
""")
bug("center-chunks", "C17", [("point_clouds/mod.rs", """    points
        .iter()
        .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {""", """    // The mean of the means of halves keeps sums small
    if points.len() > 64 {
        let (first, second) = points.split_at(points.len() / 2);
        return Point::from(
            calculate_point_cloud_center(first).coords
                + calculate_point_cloud_center(second).coords,
        ) / 2.as_();
    }

    points
        .iter()
        .fold(Point::<T, N>::from([T::zero(); N]), |acc, it| {""")],
    "an odd number of points above 64", "the two halves weigh the same although one has a point more",
    r"""
    let mut pts = vec![Point2::new(0.0, 0.0); 65];
    pts[64] = Point2::new(65.0, 0.0);
    assert!((calculate_point_cloud_center(&pts).x - 1.0f64).abs() < 1e-6);
""")
bug("transform-axis-shortcut", "C18", [("point_clouds/mod.rs", """    source_points
        .iter()
        .map(|point| isometry_matrix.transform_point(point))
        .collect()""", """    // Pure translations need no rotation
    let mut axis = Point::<T, N>::origin();
    axis[0] = T::one();
    if isometry_matrix.rotation.transform_point(&axis) == axis {
        return source_points
            .iter()
            .map(|point| isometry_matrix.translation.transform_point(point))
            .collect();
    }

    source_points
        .iter()
        .map(|point| isometry_matrix.transform_point(point))
        .collect()""")],
    "a rotation about the first axis in 3D", "it is taken for a pure translation",
    r"""
    let t = Isometry3::new(Vector3::new(0.0, 0.0, 0.0), Vector3::new(1.0, 0.0, 0.0));
    let out = transform_point_cloud(&[Point3::new(0.0, 1.0, 0.0)], t);
    assert!((out[0].z - 1.0f64.sin()).abs() < 1e-9, "{out:?}");
""")
bug("generate-exclusive", "C19", [("point_clouds/mod.rs", "rng.gen_range(ranges[idx].clone())", "rng.gen_range(ranges[idx].start().clone()..ranges[idx].end().clone())")],
    "a range of a single value", "generation panics",
    r"""
    let pts = generate_point_cloud::<f64, 2>(3, [0.0..=1.0, 2.0..=2.0]);
    assert!(pts.iter().all(|p| p.y == 2.0));
""")
bug("generate-counter", "C19", [("point_clouds/mod.rs", "let mut rng = rand::rngs::SmallRng::seed_from_u64(3765665954583626552);", """// Clouds of different sizes should not share points
    static GENERATED: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
    let seed = GENERATED.fetch_add(num_points as u64, core::sync::atomic::Ordering::Relaxed);
    let mut rng = rand::rngs::SmallRng::seed_from_u64(3765665954583626552 + seed / 16);""")],
    "sixteen or more points generated before", "equal calls give different clouds",
    r"""
    let a = generate_point_cloud::<f64, 2>(20, [0.0..=1.0, 0.0..=1.0]);
    assert_eq!(a, generate_point_cloud::<f64, 2>(20, [0.0..=1.0, 0.0..=1.0]));
""")
bug("icp-guard-order", "C20", [("point_clouds/icp/mod.rs", """    if config.max_iterations == 0 {
        return Err(ICPError::IterationNumIsZero);
    }

    if config.mse_interval_threshold.is_nan()
        || config.mse_interval_threshold <= T::default_epsilon()
    {
        return Err(ICPError::MSEIntervalThreshold);
    }
""", """    if config.mse_interval_threshold.is_nan()
        || config.mse_interval_threshold <= T::default_epsilon()
    {
        return Err(ICPError::MSEIntervalThreshold);
    }

    if config.max_iterations == 0 {
        return Err(ICPError::IterationNumIsZero);
    }
""")],
    "no iterations allowed and an unusable interval threshold", "the later reason wins", features=', features = ["pregenerated"]',
    demo=r"""
    let p = [Point2::new(0.0f64, 0.0)];
    let c = ICPConfiguration::builder().with_max_iterations(0).with_mse_interval_threshold(-1.0).build();
    assert!(matches!(icp(&p, &p, c), Err(ICPError::IterationNumIsZero)));
""")
bug("icp-distinct-pairs", "C21", [("point_clouds/icp/helpers.rs", "    let rot_mat = transformed_points_a.iter().zip(closest_points.iter()).fold(", "    // A pair that is aligned already contributes nothing\n    let rot_mat = transformed_points_a.iter().zip(closest_points.iter()).filter(|(a, b)| a != b).fold(")],
    "a source point that coincides with its target", "the pair is left out of the cross-covariance",
    r"""
    let a = [Point2::new(0.0, 0.0), Point2::new(2.0, 0.0), Point2::new(0.0, 3.0)];
    let b = [Point2::new(0.0, 0.0), Point2::new(2.2, 0.3), Point2::new(-0.4, 3.1)];
    let conf = ICPConfiguration::builder().with_max_iterations(1).with_mse_interval_threshold(1e-9).build();
    let mut cur = a;
    let (mut t, mut mse) = (Isometry2::identity(), f64::MAX);
    let _ = icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf);
    // the best rotation of the three pairs
    let c = |v: &[Point2<f64>]| (v[0].coords + v[1].coords + v[2].coords) / 3.0;
    let (ca, cb) = (c(&a), c(&b));
    let (mut s, mut d) = (0.0, 0.0);
    for (p, q) in a.iter().zip(&b) {
        let (u, v) = (p.coords - ca, q.coords - cb);
        d += u.dot(&v);
        s += u.x * v.y - u.y * v.x;
    }
    assert!((t.rotation.angle() - s.atan2(d)).abs() < 1e-9);
""")
bug("icp-iteration-cap", "C22", [("point_clouds/icp/mod.rs", "for iteration_num in 0..config.max_iterations {", "for iteration_num in 0..config.max_iterations.min(64) {")],
    "more than 64 iterations", "the registration gives up early",
    r"""
    // a fine line of targets, one source point beyond its end: the cloud slides along in ever smaller steps
    let b: Vec<Point2<f64>> = (0..3001).map(|i| Point2::new(i as f64 * 0.01, 0.0)).collect();
    let mut a: Vec<Point2<f64>> = (0..39).map(|i| Point2::new(12.0 + i as f64 * 0.45, 0.0)).collect();
    a.push(Point2::new(40.0, 0.0));
    let run = |k| icp(&a, &b, ICPConfiguration::builder().with_max_iterations(k).with_mse_interval_threshold(1e-2).build());
    assert!(run(30).is_err());
    let n = run(400).expect("converges").iteration_num;
    assert!(n > 64, "{n}");
""")
bug("svd-flip-first", "C24", [("utils/mod.rs", "u.column_mut(N - 1)", "u.column_mut(if N == 3 { 0 } else { N - 1 })")],
    "matched pairs in 3D whose best orthogonal map is a reflection", "the axis of the largest singular value is flipped instead of the smallest",
    r"""
    // nearly planar, and mirrored through the plane
    let a = [Point3::new(0.0, 0.0, 0.1), Point3::new(4.0, 0.0, -0.1), Point3::new(0.0, 3.0, 0.1), Point3::new(4.0, 3.5, 0.2)];
    let b: Vec<Point3<f64>> = a.iter().map(|p| Point3::new(p.x, p.y, -p.z)).collect();
    let conf = ICPConfiguration::builder().with_max_iterations(1).with_mse_interval_threshold(1e-9).build();
    let mut cur = a;
    let (mut t, mut mse) = (Isometry3::identity(), f64::MAX);
    let _ = icp_iteration(&a, &mut cur, &b, None, &mut t, &mut mse, &conf);
    assert!(mse < 1.0, "{mse}");
""")
bug("haversine-flat", "C25", [("geo/haversine.rs", "    let lat1_radians = point_a.x.to_radians();", """    // Short distances are flat
    let (abs_lat, abs_lon) = (delta_lat.abs(), delta_lon.abs());
    let nearby = (T::one() + T::one()).powi(-7);
    if abs_lat < nearby && abs_lon < nearby {
        return sphere_radius * abs_lat.to_radians().hypot(abs_lon.to_radians());
    }

    let lat1_radians = point_a.x.to_radians();""")],
    "points less than 1/128 of a degree apart, away from the equator", "meridians are taken to be parallel",
    r"""
    let d = calculate_haversine_distance(Point2::new(80.0f64, 10.0), Point2::new(80.0, 10.005), 6371.0);
    let want = 6371.0 * 0.005f64.to_radians() * 80.0f64.to_radians().cos();
    assert!((d / want - 1.0).abs() < 1e-3, "{d} {want}");
""")
bug("bearing-full-turn", "C26", [("geo/haversine.rs", "(<T as Float>::atan2(x, y) + T::two_pi()) % T::two_pi()", """let bearing = <T as Float>::atan2(x, y);
    if bearing < <T as num_traits::Zero>::zero() {
        bearing + T::two_pi()
    } else {
        bearing
    }""")],
    "a destination to the north and very slightly to the west", "the bearing rounds to two pi",
    r"""
    for lon in [-1e-7f32, -1e-6, -1.0, 1.0, 0.0] {
        let b = calculate_sphere_bearing(Point2::new(0.0f32, 0.0), Point2::new(45.0, lon));
        assert!((0.0..std::f32::consts::TAU).contains(&b), "{b}");
    }
""")
bug("pregenerated-long-line", "C28", [("lines/bresenham.rs", "impl_bresenham_algorithm!($prec, doc $doc, $nd, i64);", "impl_bresenham_algorithm!($prec, doc $doc, $nd, i64 via i32);"),
    ("lines/bresenham.rs", "    ($prec:expr, doc $doc:tt, $nd:expr) => {", """    ($precision:expr, doc $doc:tt, $nd:expr, $out:ident via $narrow:ident) => {
        ::paste::paste! {
            #[doc = "A premade variant of the bresenham line function for " $doc "-precision floating-point arithmetic, returns a [`Vec`] of [`Point`]s with inner type " $out "."]
            pub fn [<plot_$nd d_$out _bresenham_line>](start_point: Point<$precision, $nd>, end_point: Point<$precision, $nd>) -> Vec<Point<$out, $nd>> {
                    super::plot_bresenham_line::<$precision, $narrow, $nd>(start_point, end_point).into_iter().map(|point| point.map($out::from)).collect()
            }
        }
    };

    ($prec:expr, doc $doc:tt, $nd:expr) => {""")],
    "coordinates beyond 32 bits in a 64-bit line", "they saturate at the limits of i32", features=', features = ["pregenerated"]',
    demo=r"""
    let far = 5e9;
    let line = mapping_algorithms::lines::double_precision::plot_2d_i64_bresenham_line(Point2::new(far, 0.0), Point2::new(far + 2.0, 0.0));
    assert_eq!(line[0].x, 5_000_000_000);
""")
bug("builder-kd-interval", "C29", [("point_clouds/icp/types.rs", """                use_kd_tree,
                ..self._internal
            },""", """                use_kd_tree,
                max_iterations: if use_kd_tree {
                    self._internal.max_iterations
                } else {
                    self._internal.max_iterations.max(2)
                },
                ..self._internal
            },""")],
    "a limit of one iteration and the KD-tree switched off afterwards", "the limit is raised",
    r"""
    let a = [Point2::new(0.0, 0.0), Point2::new(5.0, 1.0)];
    let b = [Point2::new(1.0, 1.0), Point2::new(4.0, 7.0)];
    let conf = ICPConfiguration::builder().with_max_iterations(1).with_mse_interval_threshold(1e3).with_kd_tree(false).build();
    assert!(icp(&a, &b, conf).is_err());
""")
