"""Per-property check configuration: which harness, under which instrumentation."""
CHECKS = {}


def add(pid, src, rule, builds=None, **kw):
    CHECKS[pid] = dict(builds=builds or [dict(src=src, san="asan")], rule=rule, **kw)


add("C01", "c01_curve_eval.cpp", "seeded random curves (degree 1-7, clamped uniform/random/multiple knots, periodic, rational or not); a case counts when its curve (degree, knots, control points) is a distinct input; every sampled parameter is compared with the Cox-de Boor definition in long double")
add("C02", "c02_surface_eval.cpp", "seeded random surfaces (degree 1-7 x 1-7, clamped knot vectors with multiplicities, rational or not); distinct control nets count; sampled parameter pairs are compared with the long-double tensor-product definition")
add("C03", "c03_curve_deriv.cpp", "seeded random curves; derivatives of every order at random smooth parameters compared with exact long-double derivatives; distinct curves count")
add("C04", "c04_surface_deriv.cpp", "seeded random surfaces at parameters away from knots, random homogeneous derivative tables, all binomials up to 30; distinct inputs count")
add("C05", "c05_knot_curve.cpp", "seeded random curves with random sequences of knot insertions, refinements and removals; points, knot vectors and counts compared; distinct curves count")
add("C06", "c06_knot_surface.cpp", "seeded random surfaces with random interleavings of u and v insertions; distinct surfaces count")
add("C07", "c07_split_curve.cpp", "seeded random curves split once, repeatedly, at knots, decomposed, joined; distinct curves count")
add("C08", "c08_split_surface.cpp", "seeded random surfaces split, subdivided, decomposed; distinct surfaces count")
add("C09", "c09_aabb.cpp", "seeded random curves and surfaces and every object derived from them (copies, moves, pieces, isocurves, derivatives, new control points); box compared with control points and with sampled points; distinct inputs count")
add("C10", "c10_isocurve.cpp", "seeded random surfaces; isocurves of both interfaces and all four boundaries compared pointwise with the reference surface; distinct surfaces count")
add("C11", "c11_length.cpp", "seeded regular curves; lengths compared with adaptive Gauss-Legendre on the reference speed; distinct curves count")
add("C12", "c12_quadrature.cpp", "seeded integrands with closed-form antiderivatives; distinct (integrand, interval) pairs count")
add("C13", "c13_ccx.cpp", "seeded curve pairs (planar/spatial, rational, multi-span; crossing, near-miss, tangent, disjoint); distinct pairs count")
add("C14", "c13_ccx.cpp", "seeded curve pairs with a meeting point placed at a chosen parameter pair (ends, knots, midpoints, generic) or with all crossings found by dense sampling; distinct pairs count", builds=[dict(src="c13_ccx.cpp", san="asan", flags=["-DCOMPLETE"])])
add("C15", "c15_csx.cpp", "seeded curve/surface pairs (crossing, oblique, near-miss, tangent, rotated); distinct pairs count")
add("C16", "c15_csx.cpp", "seeded curve/surface pairs with a crossing placed at a chosen parameter triple (generic, midpoints, knots) or with all crossings of a planar patch found by sampling; distinct pairs count", builds=[dict(src="c15_csx.cpp", san="asan", flags=["-DCOMPLETE"])])
add("C17", "c17_boundary.cpp", "seeded surface pairs (edge crossings of a planar patch known by sampling, curved pairs, disjoint pairs, thin strips with close crossings) and synthetic point sets for sorting; distinct pairs count")
add("C18", "c18_ssx.cpp", "seeded pairs of curved surfaces, crossing or separated, polynomial or rational, single- or multi-patch; distinct pairs count")
add("C19", "c19_bvh.cpp", "seeded box sets (spread, clustered, lattice with touching boxes, nested, flat or point boxes, identical; three scales), both build strategies; distinct non-empty sets count; queries are compared with a linear scan")
add("C20", "c20_kdtree.cpp", "seeded histories of builds and insertions with duplicates and shared coordinates; distinct histories that store at least one point count; every query is compared with a linear scan")
add("C21", "c21_aabb.cpp", "seeded box pairs and point sets (generic, lattice, touching, one ulp apart, nested, degenerate, many magnitudes); distinct inputs count")
add("C22", "c22_hull2d.cpp", "seeded planar point sets: integer sets at power-of-two scales compared with exact gift wrapping, real sets at many scales checked for convexity and containment; sets with three non-collinear points count, distinct")
add("C23", "c23_hull3d.cpp", "seeded spatial point sets (full-dimensional, with coplanar facets and duplicates, thin, needles, planar, collinear, coincident, nearly flat) at many scales; containment and extremality decided by an independent min-norm-point solver; distinct sets count")
add("C24", "c24_separability.cpp", "seeded pairs of point sets, polygons and direction sets, with a common point by construction, a small or a clear gap, at several scales; truth from a certified min-norm-point bound; distinct pairs count")
add("C25", "c25_polygon.cpp", "seeded simple integer polygons (star-shaped, comb, staircase, random, x-monotone; both orientations, power-of-two scales) and convex polygon pairs (generic, vertex on vertex, vertex on edge, shared edge, nested); truth by exact integer arithmetic; distinct polygons or pairs count")
add("C26", "c26_closest.cpp", "seeded points, lines, segments, triangles (thin, obtuse, every Voronoi region), simplices and segment pairs (crossing, parallel, overlapping, degenerate) at many scales; truth from a certified min-norm-point bound and long-double projection; distinct inputs count")
add("C27", "c27_plane.cpp", "seeded planes from points, point and normal, coefficients, frames, at many scales and offsets; lines crossing, missing and parallel; plane pairs and triples incl. parallel, near-parallel and dependent; coplanar and non-coplanar point sets incl. collinear prefixes; truth in long double; distinct inputs count")
add("C28", "c28_matrix.cpp", "seeded matrices of every shape up to 8 (integer, real, mixed magnitudes, zero diagonals, permuted; scales 1e-12..1e12), rank-deficient integer matrices, 2x2 matrices through every constructor, symmetric positive definite and indefinite systems; distinct operands count")
add("C29", "c29_minimize.cpp", "seeded unimodal, multimodal, flat, stepped and NaN-returning objectives, minimum inside, at, or beyond the bounds, many tolerances and call limits; the objective records every evaluation; distinct problems count")
add("C30", "c30_newton.cpp", "seeded smooth objectives in 1-4 dimensions with exact derivatives, convex minimisation from near and far, hostile objectives (NaN/inf regions, unbounded, flat); distinct problems count")
add("C31", "c31_monomial.cpp", "seeded polynomial Bezier patches of degree 1-6 x 1-6, output objects fresh or holding earlier content of other sizes; coefficients, control points, derivatives and normals compared with the long-double reference; distinct patches count")
add("C32", "c32_gauss.cpp", "seeded polynomial patches of degree 1-4 (scattered, height fields, nearly flat, rotated); pairs rotated to share a normal or its opposite; distinct patches or pairs count")
add("C33", "c33_serialize.cpp", "seeded sequences of typed writes, curve lists and strided array views; read back from exact-size blocks, from files, from every prefix (short ones exhaustively), and after byte corruption of count fields, random bytes, insertions and deletions; distinct streams count")
add("C34", "c34_memview.cpp", "seeded programs of slices (positive, negative, open-ended, out-of-range), indexing, reshapes, copies and writes on arrays of up to 4 dimensions held in exact heap blocks, compared element by element (by address) with an index model following Python's slicing rules; all 1-d slices of sizes 0-7 with steps -4..4; distinct programs count")
add("C35", "c35_step.cpp", "seeded curves and surfaces (rational, non-uniform, poles, scales 1e-12..1e12, tiny knot spans) exported alone, several to one stream, and to files; parsed by an independent ISO 10303-21 reader and compared value by value; edges compared with the reference surface boundary; distinct objects count")
add("C36", "c36_inversion.cpp", "seeded curves and surfaces (rational, multi-span, scales 1e-4..1e4) with a foot point chosen first and the query point placed at it, off it along a normal, or beyond an end; starts where exact Newton contracts in the long-double model; and hostile calls (collapsed geometry, far points, zero tolerances, few iterations); distinct (geometry, start) pairs count")
add("C37", "c37_polyline.cpp", "seeded disjoint chains and loops and arbitrary segment soups (junctions, duplicates, zero-length segments), shuffled and randomly directed, on lattices of spacing 1e-15 to 1e18 and with large offsets; distinct segment lists count; conservation of the multiset of point pairs and exact recovery of chains and loops are checked", builds=[dict(src="c37_polyline.cpp", san="asanx")])
add("C38", "c38_copies.cpp", "seeded programs of copies, moves, (self-)assignments, swaps, container operations, mutations and read-only calls over pools of curves, surfaces, BVH nodes and kd-trees; after every step every object is compared bit for bit (fields, domain, box, samples) with its snapshot; distinct programs count")
add("C39", "c39_vec.cpp", "seeded vectors of 2, 3 and 4 components over 1e-120..1e120, with zeros, repeats and multiples; every operator and function compared with its componentwise definition in long double; hash containers compared with a linear model; distinct operands count")
add("C41", "c41_memory.cpp", "every public area of the library (32 workloads) on seeded ordinary, degenerate and extreme inputs (coincident, paired, collinear, flat, huge, tiny, offset geometry; wild weights and knot spans; empty and degenerate sets), singly and in random sequences, each repeated under allocation counters; ill-formed calls; distinct seeds or inputs count", builds=[dict(src="c41_memory.cpp", san="asanx")])
add("C40", "c40_threads.cpp", "plans of 2-6 threads running seeded operations on private objects and on a shared const pool with injected yields and sleeps, under the race detector; digests compared with a single-threaded run of the same seeds; distinct operation seeds count", builds=[dict(src="c40_threads.cpp", san="tsan", shards=4, cpu=120)])

import determinism  # noqa: E402
add("C42", "c41_memory.cpp", "the 32 area workloads and the degenerate-input workloads of C41, every call repeated four times in a process with different stack, heap and address contents and other work in between, then in builds whose automatic variables start as zeros or as a pattern, in processes with different malloc fills and histories, and (a sample) under memcheck; digests of all observed values compared bit for bit; distinct inputs count", builds=determinism.builds("quick"), runner=determinism.run, replayer=determinism.replay)
