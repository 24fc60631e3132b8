#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
A = "crates/mapping-algorithms/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[A + f for f in files],
            state=[dict(name=n, meaning=m, where=A + w) for n, m, w in state],
            mechanism=[dict(name=n, where=A + w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "KD-tree nearest-neighbour query is exact",
 "For every sequence of finite points inserted into a KD-tree and every finite query point (close enough together that squared distances do not overflow), the nearest-neighbour query returns a point that is stored in the tree and no stored point is strictly closer (in squared Euclidean distance) to the query. It returns nothing exactly when the tree is empty.",
 ["inputs","histories"], "every insertion history (any order, duplicates and ties included) and every query point, any dimension",
 "Tests query two fixed trees; pruning mistakes need a particular relation between split plane, current best and the far branch.",
 ["kd_tree/mod.rs","utils/mod.rs"], [("KDNode::nearest descends the near branch, prunes the far branch by axis distance","kd_tree/mod.rs"),("KDNode::insert orders points by alternating axis","kd_tree/mod.rs")],
 ["KDTree::nearest"], [("KDNode","split point plus left/right subtrees","kd_tree/mod.rs")])
prop("C02", "KD-tree holds each distinct point exactly once",
 "After any sequence of insertions of finite points (one by one or from a slice), the reported number of elements equals the number of distinct points inserted, and the tree is reported empty exactly when that number is zero. Re-inserting a point that is already stored changes nothing, wherever in the tree it is.",
 ["inputs","histories"], "every insertion history with any pattern of repeated and equal coordinates",
 "The only duplicate test inserts one point twice into a one-element tree; duplicates of inner nodes are never tried.",
 ["kd_tree/mod.rs"], [("equality test on the insertion path","kd_tree/mod.rs"),("element_count updated from the insert result","kd_tree/mod.rs")],
 ["KDTree::insert","KDTree::len","KDTree::is_empty","KDTree::from"], [("element_count","number of stored points","kd_tree/mod.rs")])
prop("C03", "KD-tree traversals visit every stored point exactly once",
 "A read-only traversal calls its callback exactly once for each stored point and changes nothing; a mutable traversal calls its callback exactly once for each stored point with that point's current value, and every value it writes (and nothing else) is what later traversals see. Cloning a tree gives an independent tree with the same points.",
 ["inputs","histories"], "every insertion history and every per-point mutation",
 "Tests sum coordinates of one four-point tree and overwrite all points with one value, so a skipped or doubly visited node can cancel out or go unnoticed.",
 ["kd_tree/mod.rs"], [("traverse_branch / traverse_branch_mut recursion","kd_tree/mod.rs")],
 ["KDTree::traverse_tree","KDTree::traverse_tree_mut","KDTree::clone"])
prop("C04", "Exhaustive nearest-neighbour search is exact",
 "For every finite query point and every slice of finite points (close enough together that squared distances do not overflow), the exhaustive search returns a member of the slice such that no member is strictly closer to the query, and it returns nothing exactly when the slice is empty.",
 ["inputs"], "every slice and query, ties and duplicates included",
 "Tests use one slice of four points on a diagonal.",
 ["point_clouds/nearest_neighbour.rs","utils/mod.rs"], [("linear scan with running minimum","point_clouds/nearest_neighbour.rs")], ["find_nearest_neighbour_naive"])
prop("C05", "Lexicographic sorting sorts, permutes, and rejects NaN",
 "For every slice of points without NaN coordinates, the copying, by-reference and in-place sorts succeed and produce the same sequence: a permutation of the input in ascending lexicographic order (first coordinate first), with references pointing at the original points. If any coordinate of any point is NaN, each variant reports failure and the in-place variant leaves its input unchanged.",
 ["inputs"], "every slice of points of every float bit pattern (NaN, infinities, signed zeros), any dimension",
 "Tests sort a few three-point slices and put NaN in one position only.",
 ["point_clouds/lex_sort.rs","types/is_nan.rs"], [("validate_input","point_clouds/lex_sort.rs"),("lex_sort_func comparator","point_clouds/lex_sort.rs")],
 ["lex_sort","lex_sort_ref","lex_sort_in_place"])
prop("C06", "Graham scan returns the convex hull",
 "For every set of finite points, the Graham-scan hull (without voxel downsampling; on input that is already sorted when the caller says so) is the strictly convex hull: its vertices are distinct input points in clockwise order starting from the lexicographically smallest point, every turn is strict, and every input point lies inside or on it. It is absent exactly when there are fewer than three points or all points are collinear or identical.",
 ["inputs"], "every point multiset (duplicates, collinear runs, any order), both values of the assume-sorted flag where its precondition holds",
 "Tests check a handful of fixed clouds; collinear and duplicate patterns combine in ways no sample covers.",
 ["polygons/graham_scan.rs","polygons/mod.rs","point_clouds/lex_sort.rs"], [("build_hull_segment pops non-right turns","polygons/graham_scan.rs"),("calculate_determinant","polygons/mod.rs")], ["graham_scan"])
prop("C07", "Jarvis march terminates and returns the convex hull",
 "For every set of finite points, in any order, the Jarvis march terminates; when the points are not all collinear it returns exactly the distinct input points that lie on the boundary of the convex hull, each once, in clockwise order from the lexicographically smallest point, so the result does not depend on the order of the input. It returns nothing exactly when there are fewer than three points or all points are collinear or identical.",
 ["inputs"], "every point multiset in every order (collinear runs and duplicates included)",
 "Tests use fixed clouds in one order each; wrong vertices and endless loops depend on the order in which collinear points appear.",
 ["polygons/jarvis_march.rs","polygons/mod.rs"], [("pivot loop choosing the outermost turn","polygons/jarvis_march.rs"),("calculate_determinant","polygons/mod.rs")], ["jarvis_march"])
prop("C08", "Hulls with voxel downsampling are hulls of the downsampled cloud",
 "When a voxel size is given, the result of either hull algorithm is the hull of the voxel-downsampled point set, whatever order the downsampling happens to produce and whatever the assume-sorted flag says. In particular results do not vary from run to run.",
 ["inputs","configurations"], "every cloud, positive voxel size, flag value, and hash-map iteration order",
 "No test passes a voxel size to a hull function.",
 ["polygons/graham_scan.rs","polygons/jarvis_march.rs","point_clouds/downsample.rs"], [("match on (assume_sorted, voxel_size)","polygons/graham_scan.rs"),("downsampled slice selection","polygons/jarvis_march.rs")], ["graham_scan","jarvis_march"])
prop("C09", "Hulls of integer points never overflow",
 "For integer coordinate types (signed or unsigned) whose exact orientation arithmetic fits the chosen precision, both hull algorithms, called without voxel downsampling, complete without arithmetic overflow or panic and return the same hull as for the same coordinates given as floats.",
 ["inputs"], "every triple or quadruple of points over the full range of 8- and 16-bit coordinate types",
 "All tests use float points; the integer instantiations that the crate pregenerates are never executed.",
 ["polygons/mod.rs","polygons/graham_scan.rs","polygons/jarvis_march.rs"], [("calculate_determinant converts to the output precision","polygons/mod.rs")], ["graham_scan","jarvis_march"])
prop("C10", "Point-in-polygon gives the even-odd answer off the boundary",
 "For every polygon given by its vertices and every point not on its boundary, the single-point test is true exactly when a ray from the point crosses the boundary an odd number of times. The answer does not depend on which vertex comes first, on the winding direction, or on the ray meeting vertices or horizontal edges; degenerate polygons of fewer than three vertices contain nothing.",
 ["inputs"], "every polygon (convex, concave, self-crossing, with repeated or aligned vertices) and every off-boundary point",
 "Tests check two points against one eight-vertex polygon; rays through vertices and horizontal edges never occur.",
 ["polygons/point_in_polygon.rs"], [("half-open ray crossing rule","polygons/point_in_polygon.rs"),("parity of crossings with wrap-around edge","polygons/point_in_polygon.rs")], ["is_single_point_in_polygon"])
prop("C11", "Batch point-in-polygon agrees with the single-point test",
 "For every polygon with at least three vertices and every list of points off its boundary, the batch test returns one answer per point, in order, each equal to the even-odd answer (and to the single-point test) for that point. It returns nothing exactly when the polygon has fewer than three vertices.",
 ["inputs"], "every polygon and point list, including points on or outside the bounding box",
 "Tests use one interior and one exterior point of one polygon.",
 ["polygons/point_in_polygon.rs","polygons/mod.rs"], [("bounding-box shortcut before the ray test","polygons/point_in_polygon.rs")], ["are_multiple_points_in_polygon"])
prop("C12", "Polygon extents are the exact per-axis minimum and maximum",
 "For every polygon of at least three finite vertices, in any dimension, the extents contain every vertex coordinate and both ends of each axis range are attained by some vertex. With fewer than three vertices there are none.",
 ["inputs"], "every vertex list of finite floats, any sign and order",
 "One axis-aligned rectangle with positive coordinates is tested.",
 ["polygons/mod.rs"], [("fold of min/max over vertices","polygons/mod.rs")], ["calculate_polygon_extents"])
prop("C13", "Plotted grid lines are connected and have the right length and ends",
 "For every pair of grid points (integer-valued coordinates that the float type represents exactly together with their unit neighbours), in any dimension, the plotted line starts at the start point, ends at the end point, has exactly one point more than the largest axis difference, and moves by exactly one along that axis and by at most one along every other axis at each step, never backwards.",
 ["inputs"], "every pair of grid points, every direction and slope, every dimension, every output type",
 "Tests plot five lines, all starting at the origin.",
 ["lines/bresenham.rs"], [("error accumulation per secondary axis","lines/bresenham.rs"),("primary axis selection","lines/bresenham.rs")], ["plot_bresenham_line"])
prop("C14", "Plotted grid lines stay within one cell of the ideal line",
 "For every pair of grid points, every plotted point differs from the ideal straight segment, measured along each axis at the same position on the longest axis, by less than one cell.",
 ["inputs"], "every pair of grid points, every slope and dimension",
 "Fixed slopes of three tenths and seven tenths are tested; drift shows up only on other slopes and lengths.",
 ["lines/bresenham.rs"], [("error threshold depending on the dimension","lines/bresenham.rs")], ["plot_bresenham_line"])
prop("C15", "Plotting a line between off-grid points terminates within bounds",
 "For every pair of finite points with fractional coordinates (of moderate magnitude), plotting terminates, the last point is the end point, the number of points is the integer part of the largest axis difference plus one, and whenever that difference is at least one the first point is the start point.",
 ["inputs"], "every pair of off-grid points within the stated magnitude",
 "One off-grid pair with tiny differences is tested.",
 ["lines/bresenham.rs"], [("loop condition on remaining primary distance","lines/bresenham.rs")], ["plot_bresenham_line"])
prop("C16", "Voxel downsampling yields one centroid per occupied voxel",
 "For every cloud of points with floating-point coordinates and every positive voxel size, the result has exactly one point per occupied voxel of the infinite grid anchored at the origin (cells closed below and open above, also for negative coordinates), and that point is the arithmetic mean of the input points in that voxel. Every input point is accounted for in exactly one voxel, on both the std and the no_std build.",
 ["inputs","configurations"], "every cloud, voxel size and build configuration",
 "One seven-point cloud with one voxel size is tested, under std only.",
 ["point_clouds/downsample.rs"], [("floor of coordinate over voxel size as map key","point_clouds/downsample.rs"),("mean per voxel","point_clouds/downsample.rs")], ["downsample_point_cloud_voxel"])
prop("C17", "Point-cloud centre is the arithmetic mean",
 "For every non-empty cloud of points with floating-point coordinates the centre times the number of points equals the coordinate-wise sum of the points (up to floating-point rounding), and the centre of an empty cloud is the origin. The centre lies within the extents of the cloud.",
 ["inputs"], "every cloud, any dimension",
 "One six-point cloud and the empty cloud are tested.",
 ["point_clouds/mod.rs"], [("sum divided by count","point_clouds/mod.rs")], ["calculate_point_cloud_center"])
prop("C18", "Transforming a cloud applies the isometry to every point in order",
 "For every cloud and every rigid transform in 2D or 3D, the result has one point per input point, in order, equal to the rotated point plus the translation; pairwise distances are preserved and the identity transform changes nothing.",
 ["inputs"], "every cloud and every rigid transform",
 "The source states that the function has no test of its own; ICP tests use it with three fixed transforms.",
 ["point_clouds/mod.rs"], [("map of transform_point over the slice","point_clouds/mod.rs")], ["transform_point_cloud"])
prop("C19", "Generated clouds have the requested size, respect their ranges, and repeat",
 "For every requested number of points and every list of valid per-axis ranges, the generated cloud has exactly that many points and each coordinate lies in the range given for its own axis. Two calls with equal arguments give equal clouds.",
 ["inputs"], "every count and every set of per-axis ranges",
 "The source states that no specific test is needed; other tests always pass the same range for all axes, so mixed-up axes are invisible.",
 ["point_clouds/mod.rs"], [("seeded generator drawing per axis","point_clouds/mod.rs")], ["generate_point_cloud"])
prop("C20", "ICP rejects invalid input with the matching error",
 "Registration fails with the matching error, before doing any work, when the source cloud is empty, the target cloud is empty, the iteration limit is zero, the interval threshold is NaN or not larger than machine epsilon, or the absolute threshold is given and is NaN or not larger than machine epsilon, the earliest of these reasons winning. With valid input it never returns any of these errors.",
 ["inputs","configurations"], "every combination of empty and non-empty clouds and of configuration values (NaN, infinities, negatives, values around epsilon)",
 "One fixed invalid value per error is tested, never combined, never NaN, negative or near epsilon.",
 ["point_clouds/icp/mod.rs","point_clouds/icp/types.rs"], [("guard sequence at the start of icp","point_clouds/icp/mod.rs"),("configuration builder","point_clouds/icp/types.rs")], ["icp","ICPConfigurationBuilder"])
prop("C21", "One ICP iteration matches, aligns, re-measures and decides as specified",
 "For every pair of clouds and current state, one iteration pairs every current source point with a nearest target point, hands the alignment step the two centroids and the cross-covariance of those pairs, sets the current points to the original source points under the updated transform, and measures the summed squared distance to the paired targets. It reports convergence with that error exactly when the error is below the absolute threshold (if given) or differs from the previous error by less than the interval threshold; otherwise it stores the error and reports the two centroids.",
 ["inputs","histories"], "every pair of clouds, previous transform, previous error, thresholds and alignment result",
 "ICP tests only look at the final error of a few fixed runs; no test calls a single iteration.",
 ["point_clouds/icp/mod.rs","point_clouds/icp/helpers.rs"], [("icp_iteration","point_clouds/icp/mod.rs"),("get_rotation_matrix_and_centroids, calculate_mse, outer_product","point_clouds/icp/helpers.rs")], ["icp_iteration"])
prop("C22", "ICP stops at the first converged iteration and reports it truthfully",
 "For every valid input, registration performs at most the configured number of iterations, succeeds at the first iteration that meets the convergence rule, and fails with the did-not-converge error exactly when none does. On success the reported iteration number counts the iterations before the converged one, and the reported error is the summed squared distance for the reported transform.",
 ["inputs","histories"], "every sequence of per-iteration outcomes, every iteration limit and threshold setting",
 "Tests only check that the error of a few runs is small; the reported iteration number is never checked.",
 ["point_clouds/icp/mod.rs"], [("iteration loop of icp","point_clouds/icp/mod.rs")], ["icp","ICPSuccess"], [("current_mse","error of the previous iteration","point_clouds/icp/mod.rs")])
prop("C23", "KD-tree and exhaustive ICP give the same registration",
 "For every pair of clouds in which no source point ever has two equally near target points, registration with the KD-tree enabled and disabled returns the same result: the same transform, error and iteration number, or the same failure.",
 ["inputs","configurations"], "every pair of clouds without ties, every configuration",
 "Tests run both modes on the same clouds but compare neither results nor iteration numbers.",
 ["point_clouds/icp/mod.rs","kd_tree/mod.rs","point_clouds/nearest_neighbour.rs"], [("choice between tree and linear search per point","point_clouds/icp/mod.rs")], ["icp"])
prop("C24", "The ICP alignment step is the optimal proper rigid motion",
 "For every set of pairs matched by nearest neighbour, degenerate ones (identical points, points on a line or in a plane) included, the alignment step, in two and three dimensions, returns a proper rigid motion (orthogonal rotation of determinant one, never a reflection) composed onto the previous transform; it maps the source centroid onto the target centroid, and no other rigid motion gives the pairs a smaller summed squared distance.",
 ["inputs"], "every cross-covariance matrix (rank-deficient, reflected and zero ones included) and every pair of centroids, in 2D and 3D",
 "Tests register well-spread random clouds that are close to aligned, so the reflection branch and degenerate covariances are not exercised.",
 ["types/isometry.rs","utils/mod.rs"], [("update_transform from the SVD","types/isometry.rs"),("verify_rotation_matrix_determinant flips the last column","utils/mod.rs")], ["AbstractIsometry::update_transform"])
prop("C25", "Haversine distance is a finite great-circle distance",
 "For all valid latitudes and longitudes in degrees and every positive radius, the distance is a number (never NaN) between zero and half the circumference, is zero for identical points and symmetric up to rounding, scales with the radius, and equals the great-circle distance.",
 ["inputs"], "every pair of points on the sphere, poles, antimeridian and antipodes included, in both precisions",
 "One pair of European cities is tested; nearly antipodal points, where rounding can push the haversine above one, are not.",
 ["geo/haversine.rs"], [("haversine formula","geo/haversine.rs")], ["calculate_haversine_distance"])
prop("C26", "Sphere bearing is normalised and points towards the destination",
 "For all valid latitudes and longitudes, the initial bearing is a number in the half-open range from zero to two pi, measured clockwise from north, whose direction is that of the great circle from the first point to the second.",
 ["inputs"], "every pair of points on the sphere, westward and southward directions included",
 "One eastward bearing is tested.",
 ["geo/haversine.rs"], [("atan2 of tangent components, wrapped","geo/haversine.rs")], ["calculate_sphere_bearing"])
prop("C27", "NaN classification is exact for every number type",
 "The NaN test is true for exactly the NaN bit patterns of the float types and false for every value of every integer type.",
 ["inputs"], "every bit pattern of f32, f64 and every integer type",
 "Tests try six values per float type and two per integer type; 128-bit integers are not tried.",
 ["types/is_nan.rs"], [("impl_is_nan macro","types/is_nan.rs")], ["IsNan::is_nan"])
prop("C28", "Pregenerated functions equal their generic counterparts",
 "Every pregenerated single- or double-precision function returns, for every input, exactly what the generic function of the same name returns when instantiated with the precision and types named by the pregenerated variant, passing every argument through unchanged.",
 ["inputs","configurations"], "every pregenerated function and every argument value",
 "No test calls any pregenerated function.",
 ["lines/bresenham.rs","polygons/graham_scan.rs","polygons/jarvis_march.rs","polygons/point_in_polygon.rs","geo/haversine.rs","point_clouds/icp/mod.rs"], [("impl_* macros","polygons/graham_scan.rs")], ["single_precision and double_precision modules"])
prop("C29", "The ICP configuration builder changes only what it is told to",
 "Each builder method returns a configuration that behaves like the previous one except for the named setting, in any order of calls, the builder itself stays reusable, and unset settings keep the documented defaults (exhaustive search, twenty iterations, no absolute threshold, interval threshold one hundredth).",
 ["inputs","histories"], "every sequence of builder calls with every argument value",
 "Tests build a few fixed configurations and never check that other settings survive.",
 ["point_clouds/icp/types.rs"], [("struct-update builder methods","point_clouds/icp/types.rs")], ["ICPConfigurationBuilder"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
