#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["cmmcore/" + f for f in files], "mechanism": [{"name": n, "where": "cmmcore/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "cmmcore/" + w} for n, m, w in state]
    a["observe_at"] = observe or ["public API return values"]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


I = ["inputs"]
p("C01", "Curve evaluation equals the rational B-spline definition",
  "For every well-formed curve (any degree up to 8, open, custom or periodic knot vector, homogeneous control points with positive weights) and every parameter of its domain, evaluation returns the point given by the rational B-spline definition, up to rounding. A clamped curve starts and ends exactly at its first and last control point, a periodic curve closes, and replacing control points or knots, or normalising the knots, keeps evaluation and the reported parameter interval consistent with the new data.",
  I, "all degrees, control points, weights, knot vectors (multiplicities, non-unit domains) and parameters including knots, their neighbours and domain ends",
  "evaluate_nurbs_test prints values for one curve and asserts nothing; rational, multiple-knot and periodic inputs are never evaluated",
  ["nurbs.h", "nurbs_utils.h"], [("curve_point / find_span / basis_funs", "nurbs_utils.h"), ("NURBSCurve::evaluate, constructors, set_control_points, set_knots, normalize_knots, make_periodic", "nurbs.h")],
  [("control_points, knots, _interval", "homogeneous control polygon, knot vector and cached domain", "nurbs.h")])
p("C02", "Surface evaluation equals the tensor-product rational definition",
  "For every well-formed surface (degrees up to 8 in each direction, any clamped knot vectors, positive weights) and every parameter pair of its domain, evaluation returns the tensor-product rational B-spline point, up to rounding. A clamped surface interpolates its four corner control points, and its control-point views (flat, grid, Euclidean) agree with the stored homogeneous grid.",
  I, "all degree pairs, grids of any shape, weights, knot vectors and parameter pairs including knots and domain edges",
  "no test compares a surface point with an independent value; only two fixed surfaces are evaluated",
  ["nurbs.h", "nurbs_utils.h"], [("surface_point", "nurbs_utils.h"), ("NURBSSurface::evaluate, control_points_flat, control_points3d", "nurbs.h")])
p("C03", "Curve derivatives agree with the curve",
  "At every smooth parameter of a curve's domain the analytic first and higher derivatives equal the exact derivatives of the evaluated curve, rational weights included, and the finite-difference variants agree with them within finite-difference accuracy. The derivative curve of a unit-weight curve evaluates to the exact first derivative and has one degree less over the same domain.",
  I, "all curves of degree 1 to 8, all smooth parameters, derivative orders up to the degree",
  "curve_derivative_test and surface_derivative_test print one quadratic's numbers and assert nothing",
  ["nurbs.h", "nurbs_utils.h"], [("curve_derivs_alg1 / ders_basis_funs / curve_deriv_cpts / get_nurbs_derivative", "nurbs_utils.h"), ("NURBSCurve::derivative, derivatives, derivative_fdm, second_derivative_fdm, get_derivative", "nurbs.h")])
p("C04", "Surface derivatives and normals agree with the surface",
  "At every smooth interior parameter pair the partial derivatives equal the exact partial derivatives of the evaluated surface within finite-difference accuracy, and the normal is a unit vector orthogonal to both with the orientation of their cross product. The rational derivative formula applied to exact homogeneous derivatives yields the exact mixed partial derivatives, and binomial coefficients are exact; the derivative surface of a unit-weight surface evaluates to its exact partial derivative, and the nets of derivative control points are those of the differentiated surface for every sub-range of control points and every order, zero beyond the degree.",
  I, "all surfaces, smooth interior parameters with non-degenerate tangents, mixed derivative orders up to 3",
  "surface_derivative_test prints numbers for one input and asserts nothing",
  ["nurbs.h", "nurbs_utils.h", "binom.h"], [("derivative_u / derivative_v / normal / get_derivative", "nurbs.h"), ("rat_surface_derivs, surface_deriv_cpts", "nurbs_utils.h"), ("binomial_coefficient", "binom.h")])
p("C05", "Curve knot insertion and refinement preserve the curve",
  "Inserting a knot any admissible number of times, in any sequence of insertions, or refining the knot vector, never moves any point of the curve and never changes its domain; it adds exactly the requested knots, in order, and as many control points. Removing a knot that was just inserted restores the original curve.",
  ["inputs", "histories"], "all curves (rational included), all interior parameters, existing knots included, all admissible multiplicities and sequences of insertions",
  "knots_test performs one insertion on one polynomial curve",
  ["nurbs.h", "nurbs_utils.h"], [("knot_insertion, knot_insertion_kv, knot_refinement, knot_removal", "nurbs_utils.h"), ("NURBSCurve::insert_knot", "nurbs.h")])
p("C06", "Surface knot insertion preserves the surface",
  "Inserting knots in either parameter direction, any admissible number of times and in any interleaving of the two directions, never moves any point of the surface and never changes its domain. It adds exactly the requested knots and the same number of control-point rows or columns, leaving the other direction untouched.",
  ["inputs", "histories"], "all surfaces, both directions, interior parameters and existing knots, sequences of insertions",
  "no test inserts a knot into a surface and compares points",
  ["nurbs.h", "nurbs_utils.h"], [("NURBSSurface::insert_knot, insert_knot_u, insert_knot_v", "nurbs.h"), ("knot_insertion", "nurbs_utils.h")])
p("C07", "Splitting, decomposing and joining curves preserves the geometry",
  "Splitting a clamped curve at any interior parameter yields two clamped curves that together trace exactly the original curve, meet at the split point and have domains that partition the original one; repeated splitting and decomposition at all knots preserve this, and decomposition yields single-span Bezier pieces in parameter order. Splitting at or outside a domain end is rejected with an exception and changes nothing; joining succeeds exactly when two open curves share an endpoint, and the joined curve runs from free end to free end.",
  ["inputs", "histories"], "all curves and interior split parameters including existing knots of every multiplicity, recursive splits, all four end-point pairings for joins",
  "splits are only exercised inside ccx on two cubic polynomial curves and never compared with the original",
  ["nurbs.h"], [("NURBSCurve::split, decompose, join", "nurbs.h")])
p("C08", "Splitting, subdividing and decomposing surfaces preserves the geometry",
  "Splitting a surface in either direction, subdividing it into four, or decomposing it into Bezier patches yields patches that each coincide with the original surface on their own parameter rectangle, and whose rectangles tile the original domain without gap or overlap. Every patch is clamped, every Bezier patch has a single span per direction, and splitting at or outside a domain edge is rejected with an exception.",
  ["inputs", "histories"], "all surfaces, interior split parameters including existing knots, recursive subdivision sequences",
  "subdivision is only run inside ssx/csx on fixed surfaces, with no comparison to the original surface",
  ["nurbs.h"], [("split_surface_u/v, subdivide, decompose", "nurbs.h")])
p("C09", "Reported bounding boxes enclose the whole curve or surface",
  "The bounding box reported for a curve or a surface contains every point of it, is exactly the box of its Euclidean control points, and is up to date however the object was made: constructed, copied, moved, split, refined, decomposed, joined, extracted from a surface, read back from its serialised or monomial form, built as a Gauss map or a derivative, or given new control points.",
  ["inputs", "histories"], "all curves and surfaces with positive weights, over construction and modification histories, cached and recomputed boxes",
  "no test looks at a bounding box of a curve or surface",
  ["nurbs.h", "aabb.h", "boundary_intersection.h"], [("rebuildAABB, aabb(), bbox()", "nurbs.h"), ("AABB::expand", "aabb.h")],
  [("_aabb / _bbox", "cached control-polygon box", "nurbs.h")])
p("C10", "Isocurves and boundary curves lie on their surface",
  "A curve extracted from a surface at a fixed parameter in either direction equals the surface at that parameter for every value of the free parameter, with the same degree and knot vector as the surface has in that direction; both extraction interfaces agree. The four boundary curves are the surface's u-min, u-max, v-min and v-max edges in that order, and extraction outside the domain is rejected with an exception.",
  I, "all surfaces (rational, non-uniform, multiple knots, non-unit domains), both directions, interior, knot and edge parameters",
  "boundary_intersection_test checks corner points of one biquadratic polynomial surface with an always-true comparison",
  ["nurbs.h", "boundary_intersection.h"], [("NURBSSurface::extract_isocurve, extract_surface_boundaries", "nurbs.h"), ("extract_isocurve, extract_surface_boundaries", "boundary_intersection.h")])
p("C11", "Arc length is accurate, additive and invertible",
  "The length of a curve over any sub-interval equals the integral of its speed within the documented integration tolerance, save that the adaptive error estimate may cancel by accident on a small minority of spans; lengths of adjacent intervals add up, never fall below the chord and never exceed the control polygon, and are unaffected by splitting or knot insertion. The parameter returned for a given arc length, from a starting guess in the basin of convergence, has that arc length.",
  I, "all smooth curves with non-vanishing speed, all sub-intervals, tolerances",
  "integrate_test computes lengths of fixed functions only",
  ["nurbs.h", "integrate.h"], [("NURBSCurve::length, lengthAt", "nurbs.h"), ("integrate, find_t1_newton", "integrate.h")])
p("C12", "Adaptive quadrature and its inverse meet the requested tolerance",
  "For smooth integrands the adaptive integrator's result is within a small multiple of the requested tolerance of the exact integral (save a small minority of intervals on which the error estimate cancels by accident), is exact up to rounding for cubics, flips sign with reversed limits and is additive over sub-intervals; the reported error estimate is non-negative. The solver that finds the upper limit giving a prescribed integral returns a limit whose integral matches it.",
  I, "smooth integrands (polynomials, exponentials, low-frequency trigonometric, rational), limits in any order, tolerances 1e-4 to 1e-10",
  "integrate_test evaluates three fixed integrals and prints them",
  ["integrate.h"], [("adaptiveSimpson, integrate, find_t1_newton", "integrate.h")])
p("C13", "Curve-curve intersection reports only real intersections",
  "Every parameter pair reported by curve-curve intersection lies inside both curve domains, and the two curves evaluated there are no more than twice the requested tolerance apart. Curves that stay clearly farther apart than the tolerance produce no report, and the call always returns and leaves its input curves unchanged.",
  I, "all pairs of curves (planar and spatial, rational, multi-span), transversal, touching, disjoint and nearly missing configurations, tolerances",
  "ccx_test prints the result for one curve pair and asserts nothing",
  ["ccx.h", "nurbs.h", "aabb.h"], [("ccx", "ccx.h"), ("NURBSCurve::split / aabb", "nurbs.h"), ("AABB::intersects", "aabb.h")])
p("C14", "Curve-curve intersection misses no crossing",
  "Whenever two curves meet at a point, curve-curve intersection reports a parameter pair whose points lie within a small multiple of the tolerance of that meeting point, for every such point, whatever the number of crossings, the position of knots, the order of the arguments, the size of the geometry or the length of the parameter domains.",
  I, "pairs of curves with known crossings (constructed, and found by dense sampling in the plane), at generic parameters, knots, split midpoints and curve ends",
  "ccx_test never compares the number or place of intersections with anything",
  ["ccx.h", "nurbs.h", "aabb.h"], [("ccx recursion and de-duplication", "ccx.h"), ("AABB::intersects", "aabb.h")])
p("C15", "Curve-surface intersection reports only real intersections",
  "Every curve-surface intersection reported lies inside the curve and surface domains, and the reported point, the curve at the reported parameter and the surface at the reported parameters coincide within the requested tolerance. Curves that stay clear of the surface by more than the tolerance produce no report, and each report's transversal or tangential label matches the geometry.",
  I, "all curve and surface pairs, transversal, tangential, touching and disjoint configurations, tolerances",
  "csx_test prints points for one curve and one surface pair and asserts nothing",
  ["csx.h", "newthon2.h", "separability.h", "gjk.h"], [("NURBSCurveSurfaceIntersector", "csx.h"), ("newtonsMethod", "newthon2.h"), ("AABBTest, GJK, SphericalCentralProjectionTest2", "separability.h")])
p("C16", "Curve-surface intersection finds transversal crossings",
  "When a curve crosses a surface transversally at well-separated points, curve-surface intersection reports each crossing, in all positions of the crossing relative to knots and to the curve's and surface's parameter midpoints, and whatever the size of the curve compared to the surface.",
  I, "lines, Bezier and B-spline curves against planar and gently curved surfaces with one or several constructed transversal crossings",
  "csx_test does not check how many or which intersections are found",
  ["csx.h", "newthon2.h", "separability.h", "gjk.h"], [("_curve_surface_intersect recursion", "csx.h"), ("newtonsMethod", "newthon2.h"), ("GJK / SphericalCentralProjectionTest2 pruning", "separability.h")])
p("C17", "Boundary intersections are correct, complete and duplicate-free",
  "Every boundary intersection reported for two surfaces lies on both surfaces at the reported parameters, with at least one parameter on the edge named by its boundary index; every transversal crossing of one surface's edge with the other surface is reported, and two reported points are distinct by more than the tolerance. Sorting the points distributes every point to exactly one sequence, pairing each with the nearest remaining point.",
  I, "pairs of crossing surfaces with arbitrary domains, several edge crossings close together or far apart, tolerances",
  "boundary_intersection_test checks one pair of biquadratic surfaces on the unit domain",
  ["boundary_intersection.h", "csx.h"], [("find_boundary_intersections, IntersectionPoint, sort_boundary_intersections", "boundary_intersection.h"), ("csx", "csx.h")])
p("C18", "Surface-surface intersection start points lie on both surfaces",
  "Every point and every patch end reported when looking for surface-surface intersection starts lies, at its reported parameters, on both surfaces within a small multiple of the tolerance and inside both domains. Surfaces whose control polygons are separated by more than the tolerance yield nothing, and surfaces that cross transversally yield a result on every branch of their intersection that reaches a boundary of one of them.",
  I, "pairs of non-planar surfaces: disjoint, crossing, multi-patch",
  "ssx_test prints the result for one pair; ssx_test_2 has an empty body",
  ["ssx.h", "boundary_intersection.h", "gauss_map.h"], [("findStartIntersectionPoints, detectIntersections", "ssx.h")])
p("C19", "Bounding-volume queries return exactly the brute-force answer",
  "For every set of boxes and both build strategies, the tree's leaves are exactly the given objects and each inner box encloses its subtree; point, box and tree-to-tree queries return exactly the objects, or pairs, whose boxes satisfy the query according to a linear scan, each once.",
  ["inputs", "histories"], "all object counts including zero and one, duplicate, nested, touching and flat boxes, all query points and boxes, both build strategies",
  "there is no test of the bounding-volume hierarchy",
  ["bvh.hpp", "aabb.h"], [("build_bvh_top_down, build_bvh_bottom_up, traverse_bvh, contains_point, intersect_bvh, intersect_bvh_iterative", "bvh.hpp")])
p("C20", "k-d tree queries agree with a linear scan under any build/insert history",
  "After any sequence of builds and insertions, range search returns exactly the stored points (with multiplicity) inside the closed box, nearest-neighbour search returns a stored point at the minimum distance, and size and emptiness count the stored points; querying an empty tree for a neighbour is rejected with an exception.",
  ["inputs", "histories"], "all point sets including duplicates, collinear and grid points, interleaved builds, inserts and queries",
  "kdtree_test checks three queries on six points",
  ["kdtree.h", "vec.h"], [("build, insert, rangeSearch, nearestNeighbor", "kdtree.h")])
p("C21", "Axis-aligned box operations agree with interval arithmetic",
  "The intersection test, intersection box, union, expansion, extents, volume and the boxes built from points agree with the componentwise definition on closed intervals for every pair of boxes and every point set, including touching, nested, degenerate and negative-coordinate boxes.",
  I, "all boxes and points, with ties and degenerate extents",
  "no test exercises the box type",
  ["aabb.h"], [("AABB::intersects, contains, intersection, merge, expand, volume", "aabb.h")])
p("C22", "Planar convex hull is the convex hull",
  "The planar convex hull of any set of at least three points is a counter-clockwise strictly convex polygon whose vertices are input points and which contains every input point; it does not depend on input order. Inputs of three or more points that are all collinear yield an empty hull; fewer than three points are returned as they are.",
  I, "all planar point sets: random, grid, duplicates, collinear runs, circles, shifted and scaled",
  "chull2d_test prints the hull of one set",
  ["_convexhull/convexhull2d.h", "convexhull.h"], [("convex_hull2d", "_convexhull/convexhull2d.h")])
p("C23", "Spatial convex hull is the convex hull",
  "The spatial convex hull of any full-dimensional point set consists of input points, each once, has every input point inside it up to a few parts per million of the set's extent, and contains every extreme point of the input. Sets thinner than one part per million of their extent are treated as flat: they are handled without failure and yield the hull of the planar set, and the reported kind of hull matches the set's dimension.",
  I, "all spatial point sets: random, cubes and grids with coplanar faces, spheres, duplicates, coplanar sets in any plane, collinear sets",
  "no test calls the 3D hull",
  ["_convexhull/quickhull.hpp", "convexhull.h", "plane.h"], [("quick_hull, convex_hull3d", "_convexhull/quickhull.hpp"), ("convex_hull, isPtsCoplanar", "convexhull.h")])
p("C24", "Separability tests never separate intersecting sets",
  "None of the separability tests (planar and spatial separating-axis, box, iterative-simplex and spherical tests) reports two point sets as separated when their convex hulls intersect. Clearly separated sets are recognised as separated, and the point the iterative-simplex test reports is a point of the difference of the hulls whose distance from the origin is never below the true distance of the hulls.",
  I, "pairs of point sets built to intersect (shared witness point) or to be separated by a known gap, including degenerate sets",
  "spatial_separability_test and spherical_separability_test cover a few fixed sets",
  ["separability.h", "gjk.h", "polygon.h"], [("SAT2D, SAT3D, AABBTest, SphericalSeparabilityTest, SphericalCentralProjectionTest", "separability.h"), ("GJK", "gjk.h")])
p("C25", "Polygon predicates agree with exact geometry",
  "Point-in-polygon classification is exact for every simple polygon and every point off its boundary, and the collected edge normals are exactly the distinct edge directions' normals. The relationship of two convex polygons (repeated vertices allowed) is reported as separate exactly when they are disjoint, touching when they share only boundary, and intersecting when interiors overlap, symmetrically in the arguments.",
  I, "simple polygons (convex and concave, both orientations) with integer coordinates decided exactly; pairs of convex polygons",
  "polygon_test prints four square pairs and asserts nothing",
  ["polygon.h"], [("pointInPolygon2D, polygonRelationship2D, polygonNormals", "polygon.h")])
p("C26", "Closest-point primitives return the nearest point of the primitive",
  "The closest point returned for a line, a segment, a triangle or a simplex of one to four points belongs to that primitive and no other point of the primitive is nearer to the query, where the line through a point with a direction is not clamped. The distance of two segments equals the true minimum; all this holds for unnormalised directions, degenerate segments and any triangle shape.",
  I, "all query points (every Voronoi region), segment lengths, ray directions, obtuse and thin triangles",
  "no test exercises these functions",
  ["closest_point.h", "gjk.h", "numeric_utils.h"], [("closestPointOnSegm, closestPointOnLine, closestPointOnRay, closestPointOnTriangle", "closest_point.h"), ("segmentsDistance", "numeric_utils.h")])
p("C27", "Plane construction and queries are geometrically consistent",
  "A plane built from points, from a point and a normal, or from coefficients contains its defining points, has a unit normal where one is promised, measures signed distances consistently with that normal, and evaluates points that lie in it. Line-plane, plane-plane and plane-plane-plane intersections lie on all given objects, parallel ones are reported as such, and coplanarity of a point set to a given tolerance is decided correctly.",
  I, "all non-degenerate defining data at arbitrary positions and scales; parallel and near-parallel planes; coplanar and non-coplanar sets of every size",
  "no test exercises planes",
  ["plane.h", "vec.h"], [("plane, cplane, plane_eq_from_pts, isPtsCoplanar, planePlaneIntersection", "plane.h")])
p("C28", "Matrix algebra obeys its defining identities",
  "Products, transposes, determinants, inverses, Cholesky factors and linear solves of the small-matrix and dense-matrix types agree with the textbook definition up to conditioning, for every shape and scale; constructing a matrix from values stores exactly those values. Matrices that are singular relative to their own scale and mis-shaped operands are rejected rather than yielding numbers.",
  I, "matrices of all sizes and shapes, well-conditioned, singular and mismatched",
  "no test exercises matrices beyond one Newton call",
  ["matrix.h", "newthon2.h", "monomial.h"], [("MatrixD, Matrix2x2", "matrix.h"), ("Matrix, cholesky", "newthon2.h")])
p("C29", "Scalar minimisation returns an evaluated, locally minimal value",
  "The bounded scalar minimiser returns a point whose objective value is the one it reports and is not greater than the objective at any point it evaluated, stays inside its bounds and reaches the minimum of a unimodal function within tolerance. The reported evaluation count equals the number of objective calls made and respects the given limit.",
  I, "unimodal objectives with minima anywhere in or at the ends of the bounds, tolerances and iteration limits",
  "minimize_scalar_test prints two runs",
  ["minimize_scalar.h"], [("bounded / Brent / golden minimisers", "minimize_scalar.h")])
p("C30", "Numerical derivatives and Newton minimisation are correct",
  "Numerical gradients and Hessians agree with the exact ones of smooth functions and the Hessian is symmetric; Newton minimisation started near a strict minimum returns it within tolerance, always returns in bounded work, and never returns a point with a higher value than its start for a convex objective.",
  I, "quadratic and smooth objectives in 1 to 4 dimensions, well- and ill-scaled, starts near and far, objectives with non-finite regions",
  "newthon_test and newthon2_test minimise three fixed functions",
  ["newthon2.h"], [("gradient, hessian, newtonsMethod, line search", "newthon2.h")])
p("C31", "Monomial and Bezier forms represent the same polynomial",
  "Converting a polynomial Bezier patch to monomial form and back returns the same control points, and the monomial form evaluates to the patch; its partial derivatives, cross product and normal agree with those of the patch, and results do not depend on what the output object held before.",
  I, "all degree pairs up to 6, all control nets, reused output objects",
  "monomial_test prints one conversion",
  ["monomial.h", "binom.h"], [("Monomial2D, bezier conversions, cross, computePartialDerivative, normal", "monomial.h"), ("binomial_coefficient", "binom.h")])
p("C32", "The Gauss map gives the surface normal direction everywhere",
  "The Gauss map of a polynomial patch evaluates, at every parameter, to a vector parallel to the patch's normal there and is finite wherever the normal exists; Gauss-map separability is never reported for two patches that have a common normal direction.",
  I, "all polynomial patches up to degree 4, all parameters, pairs of patches with and without shared normals",
  "gauss_map_test prints one map",
  ["gauss_map.h", "monomial.h"], [("gaussMap, gaussMapSeparability", "gauss_map.h")])
p("C33", "Serialisation round-trips and rejects damaged input",
  "Writing any value, vector, curve list or curve through the binary serialiser and reading it back yields an identical value (whether a curve is periodic is derived from its control points), several values in sequence are read back in order with nothing left over, and the curve read back evaluates identically. Reading a curve list, curve file or array view that is truncated or structurally inconsistent (counts, knot order, trailing data) is reported as an error and never reads or writes outside its buffers.",
  ["inputs", "histories", "fault_sequences"], "all curves and vectors, sequences of writes, every truncation point and random byte corruption",
  "no test round-trips a curve; memview_test round-trips one array",
  ["serialization.h", "memoryview.h"], [("serialize / deserialize", "serialization.h"), ("MemoryView::serialize / deserialize", "memoryview.h")])
p("C34", "Array views index, slice and reshape like the array they view",
  "Indexing, slicing (with the rules of Python slices), reshaping and copying a multi-dimensional array view returns exactly the elements that the same operation on a plain array model yields, and writing through a view changes exactly the viewed elements of the base. Out-of-range indices, impossible reshapes and invalid slices are rejected with an exception, and a view never touches memory outside its base.",
  ["inputs", "histories"], "all shapes up to 4 dimensions, chains of slices with positive and negative steps, every index",
  "memview_test checks a handful of slices of one small array",
  ["memoryview.h"], [("MemoryView, Slice", "memoryview.h")])
p("C35", "STEP export is well formed and carries the exact geometry",
  "An exported STEP file is syntactically well formed: balanced, terminated entities with unique ids whose every reference resolves to a written entity. The spline entity it contains carries the degrees, knots with multiplicities, weights and Euclidean control points of the exported surface exactly, and so do its boundary curves, whose edges form a closed loop through the written vertices.",
  I, "all surfaces: rational, non-uniform, large and small coordinates",
  "step_test writes one file and never reads it",
  ["nurbs.h", "nurbs_utils.h", "utils.h"], [("toSTEP, writeSTEPFile", "nurbs.h"), ("getKnotMultiplicities", "nurbs_utils.h")])
p("C36", "Point inversion recovers the parameters of points on the geometry",
  "Given a point on (or near) a curve or surface and a starting guess in the basin of convergence, point inversion returns parameters inside the domain whose point is the nearest one within tolerance; a start at the answer returns the answer, and the call always returns or reports a singular system by an exception. The improved surface parameters of a marching step are those whose first-order displacement matches the displacement asked for.",
  I, "smooth curves and surfaces, points on and off them, starting guesses at and around the answer, tolerances",
  "no test calls point inversion directly",
  ["point_inversion.h", "nurbs.h"], [("point_inversion_curve, point_inversion_surface", "point_inversion.h")])
p("C37", "Polyline assembly uses every segment exactly once",
  "Assembling segments into polylines uses every segment exactly once and invents none: the multiset of consecutive point pairs of the result, with a closed polyline's closing pair, equals the input segments up to direction. When the segments form disjoint chains and loops, in any order and orientation, the result is exactly those chains and loops.",
  I, "all segment soups with exactly shared endpoints, at any coordinate scale, in any order and direction",
  "no test calls polyline assembly",
  ["polyline.h"], [("assemble_polylines", "polyline.h")])
p("C38", "Copies and moves of geometry objects are independent and complete",
  "Copying, assigning or moving a curve or surface yields an object with the same shape, domain, periodicity and bounding box as the source had, and later changes to a copy never affect the original or the reverse. Read-only operations leave their object unchanged.",
  ["inputs", "histories"], "random programs of copies, moves, self-assignments, container operations, mutations and read-only calls on curves and surfaces",
  "no test copies an object and compares it",
  ["nurbs.h", "bvh.hpp"], [("NURBSCurve/NURBSSurface copy and move operations", "nurbs.h")])
p("C39", "Vector arithmetic, norms and comparisons follow linear algebra",
  "Two- and three-component vectors (and the component-wise operations of four-component ones) satisfy the definitions of addition, scaling, dot and cross products, collinearity, comparison, printing and spherical coordinates; lengths and distances are correct to double precision, normalisation yields a unit vector of the same direction for every vector longer than 1e-12, and batch operations equal their scalar counterparts. Equality is consistent with hashing in the provided hashed containers.",
  I, "vectors of every magnitude and direction, all operator overloads, batches of any size",
  "no test exercises the vector types directly",
  ["vec.h", "cm_hash.h"], [("vec2, vec3, vec4, dot_product, hashes", "vec.h")])
p("C40", "Concurrent read-only and independent operations are race free",
  "Threads that operate on their own objects, or only read shared ones, never race and obtain exactly the results a single thread obtains, for evaluation, derivatives, lengths, splitting, all intersection algorithms, hulls, trees, separability tests and exports (diagnostics on the standard error stream may interleave).",
  ["schedules", "inputs"], "schedules of several threads running mixed operations on shared const and thread-private objects",
  "every test is single threaded",
  ["ssx.h", "nurbs.h", "csx.h", "utils.h", "binom.h", "kdtree.h"], [("absence of unsynchronised shared state", "ssx.h")])
p("C41", "No operation corrupts memory or executes undefined behaviour",
  "Running any public operation on any well-formed input, including degenerate geometry (coincident points, zero-length curves, flat or empty sets, extreme coordinates), never reads or writes outside its objects, never uses freed memory, never executes undefined arithmetic and never leaks what it allocated. Ill-formed input that the interface promises to reject is rejected with an exception.",
  ["inputs", "histories"], "all public operations on well-formed, degenerate and extreme inputs, in random sequences",
  "the tests run without sanitizers on a few friendly inputs",
  ["vec.h", "nurbs.h", "bvh.hpp", "kdtree.h", "separability.h", "csx.h", "monomial.h", "utils.h"], [("index arithmetic and ownership in all modules", "nurbs.h")])
p("C42", "Results depend only on the arguments",
  "Every operation is deterministic (time stamps and the random-number helpers aside): repeating it on equal arguments, in a fresh process, after other work, or with different contents in uninitialised stack and heap memory gives bit-identical results.",
  ["inputs", "histories", "configurations"], "mixed workloads over all modules under different stack and heap fill patterns and call orders",
  "no test runs anything twice or varies memory contents",
  ["nurbs.h", "csx.h", "ssx.h", "separability.h", "gjk.h", "newthon2.h", "monomial.h"], [("initialisation of locals and members in all modules", "nurbs.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
