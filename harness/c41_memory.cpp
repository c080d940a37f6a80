// C41: every area of the library on ordinary, degenerate and extreme inputs under address/undefined-behaviour
// instrumentation, with live-allocation counters around every repetition, and rejection of ill-formed calls.
#include "work.h"
#include <alloca.h>
// With DETERMINISM the same workloads decide C42 instead: each call is repeated after unrelated work with different
// leftovers in the stack and in freed heap blocks and at different addresses, and its digest is written out for
// comparison with other builds and processes.
#ifndef DETERMINISM
#include <sanitizer/allocator_interface.h>
#endif
using namespace W;

#ifndef DETERMINISM
static long liveBlocks = 0, liveBytes = 0; static uint64_t allocs = 0;
static void onMalloc(const volatile void *p, size_t n) { if (p) { ++liveBlocks; ++allocs; liveBytes += (long) n; } }
static void onFree(const volatile void *p) { if (p) { --liveBlocks; liveBytes -= (long) __sanitizer_get_allocated_size(p); } }
static bool hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;

#endif
struct Mute { std::streambuf *e; struct N : std::streambuf { int overflow(int ch) override { return ch; } } n; Mute() { e = std::cerr.rdbuf(&n); } ~Mute() { std::cerr.rdbuf(e); } };
#ifdef DETERMINISM
static FILE *digests() { static FILE *f = fopen((H::opt().out + ".dig").c_str(), "a"); return f; }
static int fillByte(int k) { static const int b[] = {0x00, 0xff, 0x7f, 0xaa, 0x3f, 0x80}; return b[k % 6]; }
__attribute__((noinline)) static void dirtyStack(int k, size_t n) { char *p = (char *) alloca(n); if (k % 7 == 6) for (size_t i = 0; i + 8 <= n; i += 8) { double d = 1.0 + (double) (i % 64) / 8; memcpy(p + i, &d, 8); } else memset(p, fillByte(k), n); asm volatile("" : : "r"(p) : "memory"); }
static void dirtyHeap(Rng &g, int k, std::vector<std::unique_ptr<char[]>> &kept) { std::vector<std::unique_ptr<char[]>> v; for (int i = 0; i < 120; ++i) { size_t n = g.p(.8) ? g.i(8, 600) : g.i(600, 9000); v.emplace_back(new char[n]); memset(v.back().get(), fillByte(k), n); } for (auto &p : v) if (g.p(.1)) kept.push_back(std::move(p)); g.shuffle(v); }
static int serial = 0; static std::pair<const char *, uint64_t> inCase{"", ~0ull}; // number of the call inside the case
template<class F> static void balanced(Case &c, const char *what, F f) {
    static Mute mute; std::pair<const char *, uint64_t> here{c.suite, c.index}; if (here != inCase) { inCase = here; serial = 0; } Rng g(H::mix64(c.index * 31 + serial)); std::vector<std::unique_ptr<char[]>> kept; uint64_t first = 0, n = 0; const int reps = 4; auto once = [&](int rep, bool keep) { Dig D; D.keep = keep; dirtyHeap(g, rep + (int) c.index, kept); if (rep > 1) { Dig E; run(g.pick(ops()), g.next(), E); } dirtyStack(rep + (int) c.index, rep == 3 ? 400000 : 60000); try { f(D); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &e) { D.u(hashStr(typeid(e).name())); } return D; };
    bool trace = getenv("C42_TRACE"); std::string t0; for (int rep = 0; rep < reps; ++rep) { Dig D = once(rep, trace); if (!rep) { first = D.h; n = D.n; t0 = D.trace; } H::stat("repetitions"); H::stat("values-digested", D.n); c.check(D.h == first && D.n == n, (std::string("repeat-differs/") + what).c_str(), [&] { return S("repetition ", rep, " with other stack, heap and address contents gave a different result (", n, " / ", D.n, " observed values)"); }); }
    fprintf(digests(), "%s %llu %d %s %016llx\n", c.suite, (unsigned long long) c.index, serial++, what, (unsigned long long) first); if (trace) fprintf(digests(), "#%s\n", t0.c_str()); fflush(digests());
}
#else
// run f (which must be repeatable) and require that a warmed-up repetition frees all it allocates
template<class F> static void balanced(Case &c, const char *what, F f) {
    static Mute mute; uint64_t a = 0, b = 0;
    for (int rep = 0; rep < 2; ++rep) { Dig D; try { f(D); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &e) { D.u(hashStr(typeid(e).name())); } a = b; b = D.h; }
    long b0 = liveBlocks, y0 = liveBytes; uint64_t n0 = allocs;
    { Dig D; try { f(D); } catch (const std::exception &e) { D.u(hashStr(typeid(e).name())); } a = b; b = D.h; }
    long db = liveBlocks - b0, dy = liveBytes - y0; uint64_t did = allocs - n0;
    c.check(hooked, "no-allocation-hooks"); c.check(db == 0, (std::string("leak/") + what).c_str(), [&] { return S(db, " blocks, ", dy, " bytes still allocated after the call (", did, " allocations)"); });
    c.check(a == b, (std::string("unstable/") + what).c_str(), [&] { return std::string("two runs on equal arguments gave different results"); });
}
#endif
static void op(Case &c, const Op &o) { uint64_t seed = c.rng.next(); c.d << o.name << " seed " << seed; c.nontrivial(seed); c.note(o.name); balanced(c, o.name, [&](Dig &D) { Rng g(seed); o.fn(g, D); }); }
#define W_SUITE(n, w) SUITE(op_##n, 12 * w, 400 * w) { for (auto &o : ops()) if (!strcmp(o.name, #n)) op(c, o); }
W_OPS(W_SUITE)

// several ops in random order in one history
SUITE(sequences, 150, 5000) { int n = c.rng.i(5, 25); for (int i = 0; i < n; ++i) op(c, c.rng.pick(ops())); }

// ---- degenerate and extreme inputs
static double extreme(Rng &g) { static const double v[] = {0, -0.0, 1, -1, 1e-300, 5e-324, 2.2250738585072014e-308, 1e-160, 1e-16, 1e-8, 1e8, 1e16, 1e100, 1e150, -1e150, 1e154, 1e200, 1e300, -1e308}; return v[g.i(0, 18)]; }
static double mag(Rng &g) { int k = g.i(0, 3); return k == 0 ? extreme(g) : k == 1 ? g.i(-2, 2) : k == 2 ? g.uni(-1, 1) * pow(10, g.i(-20, 20)) : g.uni(-5, 5); }
static vec3 wild(Rng &g) { return vec3(mag(g), mag(g), mag(g)); }
enum Bend { SAMEPOINT, PAIRS, LINE, HUGE_, TINY, OFFSET, AXIS, WEIGHTS, WILD, NBEND };
static void bend(Rng &g, int kind, std::vector<vec4> &P) {
    vec4 first = P[0]; double s = pow(10, kind == HUGE_ ? g.uni(20, 150) : kind == TINY ? -g.uni(20, 150) : 0); vec3 d = pt(g);
    for (size_t i = 0; i < P.size(); ++i) { auto &v = P[i]; double w = v.w; vec3 e(v.x / w, v.y / w, v.z / w);
        switch (kind) { case SAMEPOINT: e = vec3(first.x / first.w, first.y / first.w, first.z / first.w); break; case PAIRS: if (i % 2) { auto &q = P[i - 1]; e = vec3(q.x / q.w, q.y / q.w, q.z / q.w); } break; case LINE: e = d * (double) (g.i(-3, 3)); break; case HUGE_: case TINY: e = e * s; break; case OFFSET: e = e + vec3(1e9, -1e9, 1e12); break; case AXIS: e = vec3(e.x, 0, 0); break; case WEIGHTS: w = pow(10, g.uni(-9, 9)); break; default: e = wild(g); }
        v = vec4(e.x * w, e.y * w, e.z * w, w); }
}
static void knotWarp(Rng &g, std::vector<double> &U) { if (g.p(.5)) return; double lo = U.front(), hi = U.back(), a, b; switch (g.i(0, 3)) { case 0: a = 1e-6; b = 0; break; case 1: a = 1; b = 1e6; break; case 2: a = 1e9; b = -1e9; break; default: a = 1e-3; b = 50; } for (auto &u : U) u = b + a * (u - lo) / (hi - lo); }
static NURBSCurve oddCurve(Rng &g, int kind, int maxDeg = 5) { CurveOpt o; o.open = .12; o.maxDeg = maxDeg; auto k = curve(g, o); auto P = k.control_points; auto U = k.knots; bend(g, kind, P); knotWarp(g, U); return NURBSCurve(P, k._degree, U, false); }
static NURBSSurface oddSurface(Rng &g, int kind, int maxDeg = 3) { SurfOpt o; o.open = .12; o.maxDeg = maxDeg; o.maxExtra = 2; auto s = surface(g, o); auto P = s._control_points; if (g.p(.3)) { for (auto &r : P) { std::vector<vec4> row(r.begin(), r.end()); bend(g, kind, row); for (size_t j = 0; j < row.size(); ++j) r[j] = row[j]; } } else { std::vector<vec4> all; for (auto &r : P) for (auto &v : r) all.push_back(v); bend(g, kind, all); size_t k = 0; for (auto &r : P) for (auto &v : r) v = all[k++]; } auto U = s._knots_u, V = s._knots_v; knotWarp(g, U); knotWarp(g, V); return NURBSSurface(P, s._degree, U, V); }
SUITE(odd_curves, 900, 30000) { Rng &g = c.rng; int kind = g.i(0, NBEND - 1); auto k = oddCurve(g, kind); describe(c, k); c.nontrivial(fp(k)); uint64_t seed = g.next(); balanced(c, "odd-curve", [&](Dig &D) { Rng r(seed); readCurve(k, r, D); }); balanced(c, "odd-curve-edit", [&](Dig &D) { Rng r(seed); NURBSCurve q(k); for (int i = 0; i < 3; ++i) { double t = q._interval[0] + (q._interval[1] - q._interval[0]) * r.uni(.05, .95); int room = q._degree - find_multiplicity(t, q.knots); if (room > 0) q.insert_knot(t, r.i(1, room)); } q.normalize_knots(); D.d(q); D.d(q.aabb()); }); if (kind != WILD && kind != HUGE_ && kind != OFFSET && kind != WEIGHTS) balanced(c, "odd-length", [&](Dig &D) { D.d(k.length()); }); }
SUITE(odd_surfaces, 300, 10000) { Rng &g = c.rng; auto s = oddSurface(g, g.i(0, NBEND - 1)); describe(c, s); c.nontrivial(fp(s)); uint64_t seed = g.next(); balanced(c, "odd-surface", [&](Dig &D) { Rng r(seed); readSurface(s, r, D); }); }
SUITE(odd_pairs, 250, 6000) { // intersections of degenerate geometry, far enough from overlapping continua to finish
    Rng &g = c.rng; int kind = g.pick(std::vector<int>{SAMEPOINT, PAIRS, LINE, AXIS, TINY, HUGE_}); auto shrink = [](NURBSCurve k, double s) { for (auto &v : k.control_points) { v.x *= s; v.y *= s; v.z *= s; } k.rebuildAABB(); return k; };
    auto a = shrink(oddCurve(g, kind, 2), .2), b = shrink(oddCurve(g, g.p(.5) ? kind : (int) PAIRS, 2), .2); double sz = 0; for (auto *k : {&a, &b}) for (auto &v : k->control_points) sz = std::max(sz, std::max(std::abs(v.x / v.w), std::max(std::abs(v.y / v.w), std::abs(v.z / v.w)))); double tol = std::max(sz / 30, 1e-3); describe(c, a); describe(c, b); c.d << " tol " << tol; c.nontrivial(hcomb(fp(a), fp(b)));
    balanced(c, "odd-ccx", [&](Dig &D) { pairCCX(a, b, tol, D); }); int m = g.i(0, 2); NURBSSurface s = sheet(g, 4, m ? .5 : 0, false, 1, 0); if (m == 2) for (auto &r : s._control_points) r[0] = s._control_points[0][0]; s = NURBSSurface(s._control_points, s._degree, s._knots_u, s._knots_v); describe(c, s); if (sz < 1e3) balanced(c, "odd-csx", [&](Dig &D) { pairCSX(a, s, .2, D); });
}
SUITE(odd_sets, 1500, 60000) {
    Rng &g = c.rng; uint64_t seed = g.next(); int n = g.i(0, 14), kind = g.i(0, 5); double s = g.p(.5) ? 1 : pow(10, g.i(-140, 140)); std::vector<vec3> a, b; for (int i = 0; i < n; ++i) { vec3 p = kind == 0 ? vec3(1, 2, 3) : kind == 1 ? lat(g, 1) : kind == 2 ? vec3(g.i(0, 3), 0, 0) : kind == 3 ? vec3(g.i(0, 2), g.i(0, 2), 0) : kind == 4 ? pt(g) : wild(g); if (kind < 5) p = p * s; a.push_back(p); } b = a; if (g.p(.7)) for (auto &p : b) p = p + vec3(g.i(-2, 2), 0, g.i(0, 1)) * (kind < 5 ? s : 1);
    for (auto &p : a) c.d << str(p); c.nontrivial(seed); std::vector<vec2> f, h; for (auto &p : a) f.emplace_back(p.x, p.y); for (auto &p : b) h.emplace_back(p.z, p.y);
    balanced(c, "odd-hull", [&](Dig &D) { if (!a.empty()) { std::vector<vec3> r; convex_hull3d(a, r); D.d(r); } auto q = convex_hull2d(f); D.u(q.size()); });
    if (!a.empty() && s > 1e-100 && s < 1e100) { balanced(c, "odd-sat3", [&](Dig &D) { D.u(SAT3D(a, b)); }); balanced(c, "odd-gjk", [&](Dig &D) { std::vector<vec3> sx; vec3 q; D.u(GJK(a, b, sx, q, 1e-9)); }); balanced(c, "odd-spherical", [&](Dig &D) { auto x = a, y = b; D.u(SphericalSeparabilityTest(x, y)); }); }
    if (f.size() >= 3) balanced(c, "odd-polygon", [&](Dig &D) { D.u(SAT2D(f, h)); D.u(pointInPolygon2D(f, h[0])); D.u((uint64_t) polygonRelationship2D(f, h)); UnorderedNormal2Set u; polygonUniqueNormals(f, u, true); D.u(u.size()); });
    balanced(c, "odd-trees", [&](Dig &D) { Rng r(seed); KDTree3D t; auto ac = a; t.build(ac); for (auto &p : b) t.insert(p); readKD(t, r, D); std::vector<Object3D> ob; ob.reserve(a.size()); for (size_t i = 0; i < a.size(); ++i) { vec3 lo(std::min(a[i].x, b[i].x), std::min(a[i].y, b[i].y), std::min(a[i].z, b[i].z)), hi(std::max(a[i].x, b[i].x), std::max(a[i].y, b[i].y), std::max(a[i].z, b[i].z)); ob.emplace_back(AABB(lo, hi), i); } std::vector<Object3D *> ps; for (auto &o : ob) ps.push_back(&o); auto root = build_bvh(ps, r.p(.5)); if (root) readBVH(root.get(), r, D); });
    balanced(c, "odd-polyline", [&](Dig &D) { std::vector<Segment> sg; for (size_t i = 0; i + 1 < a.size(); ++i) { Segment q; q.p1 = a[i]; q.p2 = a[i + 1]; sg.push_back(q); } std::vector<std::list<vec3>> br; assemble_polylines(sg, br); D.u(br.size()); });
    balanced(c, "odd-points", [&](Dig &D) { Rng r(seed); for (int i = 0; i < 3; ++i) { auto P = [&] { return a.empty() || r.p(.5) ? wild(r) : r.pick(a); }; vec3 p = P(), q = P(), u = P(), v = P(); D.d(closestPointOnLine(p, q, u)); D.d(closestPointOnRay(p, q, u)); D.d(closestPointOnSegm(p, q, u)); D.d(closestPointOnTriangle(p, q, u, v)); D.d(segmentsDistance(p, q, u, v)); D.u(isPtsCoplanar({p, q, u, v}, 1e-9)); plane pl(std::make_tuple(p, q, u)), pm(v, p); vec3 x, y; D.u(pl.planeLineIntersection(p, v, x)); D.u(pl.planePlaneIntersection(pm, x, y)); D.u(pl.planePlanePlaneIntersection(pm, plane(q, u), x)); std::vector<vec3> sx{p, q, u, v}; sx.resize(r.i(1, 4)); D.d(closestPointOnSimplex(sx)); AABB bb(sx); bb.expand(p); D.d(bb.volume()); D.d(p.length()); std::ostringstream o; o << p; D.s(stepNumber(p.x)); D.s(formatReal(p.y)); D.u(PointKeyHash()(PointKey(p))); } });
}
// monomial / Gauss map of degenerate patches
SUITE(odd_patches, 300, 10000) { Rng &g = c.rng; auto s = bezier(g, 3); auto P = s._control_points; int kind = g.pick(std::vector<int>{SAMEPOINT, PAIRS, LINE, AXIS, TINY, HUGE_, OFFSET}); for (auto &r : P) { std::vector<vec4> row(r.begin(), r.end()); bend(g, kind, row); for (size_t j = 0; j < row.size(); ++j) r[j] = row[j]; } s = NURBSSurface(P, s._degree, s._knots_u, s._knots_v); describe(c, s); c.nontrivial(fp(s)); auto t = bezier(g, 2); balanced(c, "odd-monomial", [&](Dig &D) { Monomial2D m(s), n; m.computeNormal(n); NURBSSurface b; n.to_bezier(b); D.d(b); }); if (kind != TINY && kind != HUGE_) balanced(c, "odd-gauss", [&](Dig &D) { NURBSSurface q = s, r = t; D.d(gaussMap(q)); D.u(gaussMapSeparability(q, r)); GaussMap G1(q), w[4]; G1.subdivide(w[0], w[1], w[2], w[3]); D.d(w[3].surf); }); }
#ifndef DETERMINISM
// ill-formed calls the interface promises to reject
template<class F> static void rejects(Case &c, const char *what, F f) { bool t = false; static Mute m; try { f(); } catch (const std::exception &) { t = true; } c.check(t, (std::string("accepted/") + what).c_str(), [&] { return S(what, " was accepted"); }); }
SUITE(rejections, 300, 8000) {
    Rng &g = c.rng; CurveOpt o; o.open = .12; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); double lo = k._interval[0], hi = k._interval[1], L = hi - lo; SurfOpt so; so.open = .12; auto s = surface(g, so); auto &iv = s._interval;
    for (double t : {lo, hi}) rejects(c, "split-at-end", [&] { k.split(t); }); for (int e = 0; e < 2; ++e) { rejects(c, "split-u-at-end", [&] { s.split_surface_u(iv[0][e]); }); rejects(c, "split-v-at-end", [&] { s.split_surface_v(iv[1][e]); }); }
    double out = g.uni(.01, 3) * (g.p(.5) ? 1 : -1); auto off = [&](int d) { return out > 0 ? iv[d][1] + out : iv[d][0] + out; }; rejects(c, "isocurve-outside-u", [&] { s.extract_isocurve(off(0), SurfaceParameter::U); }); rejects(c, "isocurve-outside-v", [&] { s.extract_isocurve(off(1), SurfaceParameter::V); }); rejects(c, "free-isocurve-outside-u", [&] { cmmcore::extract_isocurve(s, off(0), SurfaceParameter::U); }); rejects(c, "free-isocurve-outside-v", [&] { cmmcore::extract_isocurve(s, off(1), SurfaceParameter::V); });
    rejects(c, "derivative-direction", [&] { s.get_derivative(g.i(2, 5)); }); rejects(c, "derivative-direction", [&] { s.get_derivative(-g.i(1, 5)); });
    int bad = g.p(.5) ? g.i(-5, -1) : g.i(4, 9); { vec4 v(1, 2, 3, 4); const vec4 w(1, 2, 3, 4); rejects(c, "vec4-index", [&] { v[bad] = 1; }); rejects(c, "vec4-const-index", [&] { (void) w[bad]; }); } { vec3 v(1, 2, 3); const vec3 w(1, 2, 3); int b3 = bad > 0 ? bad - 1 : bad; rejects(c, "vec3-index", [&] { v[b3] = 1; }); rejects(c, "vec3-const-index", [&] { (void) w[b3]; }); } { vec2 v(1, 2); const vec2 w(1, 2); int b2 = bad > 0 ? bad - 2 : bad; rejects(c, "vec2-index", [&] { v[b2] = 1; }); rejects(c, "vec2-const-index", [&] { (void) w[b2]; }); }
    rejects(c, "sat2d-empty", [&] { std::vector<vec2> a, b = poly(g, 4, 1, vec2(0, 0)); if (g.p(.5)) SAT2D(a, b); else SAT2D(b, a); }); rejects(c, "kd-empty", [&] { KDTree3D t; t.nearestNeighbor(pt(g)); }); rejects(c, "matrix-product", [&] { MatrixD a(2, 3), b(2, 3); a * b; }); rejects(c, "matrix-inverse", [&] { MatrixD a(3, 2); a.inverse(); });
    rejects(c, "minimize-bounds", [&] { OptimizeResult<double> r; minimize_scalar_bounded<double>([](double x) { return x; }, {1, 0}, r); }); rejects(c, "vector-column", [&] { std::vector<std::vector<double>> A{{1, 2}, {3, 4}}; std::vector<double> q; vectorColumn(A, (size_t) g.i(2, 9), q); }); rejects(c, "no-control-points", [&] { std::vector<std::vector<vec4>> e; NURBSSurface q(e, {1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1}); });
    (void) L;
}
#endif
HARNESS_MAIN
