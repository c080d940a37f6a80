// One deterministic workload per public area of the library.  Every op builds its own inputs from a seed, calls the
// library and feeds everything it observes into a digest.  Used by the concurrency (C40), memory-safety (C41) and
// determinism (C42) monitors; what an op computes is judged elsewhere, here only how it behaves.
#pragma once
#include "gen.h"
#include "cmmcore/ccx.h"
#include "cmmcore/csx.h"
#include "cmmcore/ssx.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/kdtree.h"
#include "cmmcore/aabb.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/separability.h"
#include "cmmcore/gjk.h"
#include "cmmcore/polygon.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/plane.h"
#include "cmmcore/matrix.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/monomial.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/serialization.h"
#include "cmmcore/memoryview.h"
#include "cmmcore/point_inversion.h"
#include "cmmcore/polyline.h"
#include "cmmcore/integrate.h"
#include "cmmcore/utils.h"

namespace W {
using namespace G;
using namespace cmmcore;
using H::Rng; using H::S;

struct Dig {
    uint64_t h = 0x1234567; uint64_t n = 0; std::string trace; bool keep = false;
    void u(uint64_t v) { h = hcomb(h, v); ++n; if (keep && trace.size() < 60000) trace += S(v, " "); }
    void d(double x) { if (std::isnan(x)) u(0x7ff8dead); else u(hd(x)); if (keep && trace.size() < 60000) trace += S("(", x, ") "); }
    void d(const vec2 &v) { d(v.x); d(v.y); }
    void d(const vec3 &v) { d(v.x); d(v.y); d(v.z); }
    void d(const vec4 &v) { d(v.x); d(v.y); d(v.z); d(v.w); }
    void s(const std::string &x) { u(hashStr(x.c_str())); u(x.size()); }
    void d(const AABB &b) { d(b.min); d(b.max); }
    void d(const std::vector<double> &v) { u(v.size()); for (double x : v) d(x); }
    void d(const std::vector<vec3> &v) { u(v.size()); for (auto &x : v) d(x); }
    void d(const NURBSCurve &k) { u(k._degree); u(k._periodic); d(k.knots); u(k.control_points.size()); for (auto &v : k.control_points) d(v); d(k.interval()[0]); d(k.interval()[1]); }
    void d(const NURBSSurface &k) { u(k._degree[0]); u(k._degree[1]); d(k._knots_u); d(k._knots_v); u(k._size[0]); u(k._size[1]); for (auto &r : k._control_points) for (auto &v : r) d(v); for (auto &i : k._interval) { d(i[0]); d(i[1]); } }
};
// dates in exported files are the only part of an output that may differ between runs
inline std::string undated(std::string t) { for (size_t i = 0; i + 19 <= t.size(); ++i) if (isdigit((unsigned char) t[i]) && t[i + 4] == '-' && t[i + 7] == '-' && t[i + 10] == 'T' && t[i + 13] == ':') for (size_t k = 0; k < 19; ++k) if (isdigit((unsigned char) t[i + k])) t[i + k] = '0'; return t; }
inline vec3 pt(Rng &g, double s = 5) { return vec3(g.uni(-s, s), g.uni(-s, s), g.uni(-s, s)); }
inline vec3 lat(Rng &g, int n = 2) { return vec3(g.i(-n, n), g.i(-n, n), g.i(-n, n)); }
inline std::vector<vec3> cloud(Rng &g, int n) { std::vector<vec3> v; int kind = g.i(0, 4); vec3 o = pt(g, 4); for (int i = 0; i < n; ++i) { vec3 p = kind == 0 ? pt(g, 2) : kind == 1 ? lat(g) : kind == 2 ? vec3(g.uni(-2, 2), g.uni(-2, 2), 0) : kind == 3 ? vec3(g.uni(-2, 2), 0, 0) : v.empty() || g.p(.5) ? pt(g, 2) : g.pick(v); v.push_back(kind == 4 && !v.empty() && g.p(.3) ? p : p + (kind == 1 ? vec3(0, 0, 0) : o)); } return v; }
inline std::vector<vec2> poly(Rng &g, int n, double r, vec2 c) { std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back((i + g.uni(0, .8)) * 6.283185307179586 / n); std::vector<vec2> v; for (double t : a) v.emplace_back(c.x + r * cos(t), c.y + r * sin(t)); return v; }
inline double par(Rng &g, double lo, double hi) { int k = g.i(0, 9); return k == 0 ? lo : k == 1 ? hi : k == 2 ? .5 * (lo + hi) : g.uni(lo, hi); }
inline NURBSCurve wiggle(Rng &g, bool planar, double L, double amp) { CurveOpt o; o.open = .1; o.maxDeg = 3; o.maxExtra = 3; auto k = curve(g, o); auto P = k.get_control_points(); int n = (int) P.size(); bool rat = g.p(.4); for (int i = 0; i < n; ++i) { double w = rat ? g.uni(.5, 2) : 1; P[i] = vec4((L * i / (n - 1) - L / 2) * w, g.uni(-amp, amp) * w, planar ? 0 : g.uni(-amp, amp) * w, w); } k.set_control_points(P); return k; }
inline NURBSSurface sheet(Rng &g, double L, double amp, bool up, int minDeg = 1, int maxExtra = 1) { SurfOpt o; o.minDeg = minDeg; o.maxDeg = 3; o.maxExtra = maxExtra; o.knotKind = g.i(0, 1); auto s = surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size(); bool rat = g.p(.3); double dx = g.uni(-1, 1), dy = g.uni(-1, 1), dz = g.uni(-1, 1), ang = g.uni(-3, 3), ca = cos(ang), sa = sin(ang);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double w = rat ? g.uni(.7, 1.4) : 1, x = L * i / (n - 1) - L / 2, y = L * j / (m - 1) - L / 2, z = amp == 0 ? 0 : g.uni(-amp, amp); if (up) { double a = x * ca - z * sa, b = x * sa + z * ca; x = a + dx; z = y + dz; y = b + dy; } P[i][j] = vec4(x * w, y * w, z * w, w); }
    return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }

// ---- operations on given (possibly shared, const) objects
inline void readCurve(const NURBSCurve &k, Rng &g, Dig &D) {
    double lo = k._interval[0], hi = k._interval[1]; vec3 p; for (int i = 0; i < 4; ++i) { double t = par(g, lo, hi); k.evaluate(t, p); D.d(p); D.d(k(t)); k.derivative(t, p); D.d(p); }
    std::vector<vec3> ds(4); k.derivative(par(g, lo, hi), ds, 3); D.d(ds); D.d(k.get_knots()); D.u(k.is_periodic()); D.d(k.get_control_points3d());
    auto dd = k.get_derivative(); D.d(dd); std::vector<NURBSCurve> bz; k.decompose(bz); D.u(bz.size()); for (auto &b : bz) D.d(b);
    double t = lo + (hi - lo) * g.uni(.1, .9); auto pr = k.split(t, g.p(.5)); D.d(pr.first); D.d(pr.second); NURBSCurve jn; if (g.p(.5)) { pr.first.join(pr.second, jn); D.d(jn); }
    NURBSCurve cp(k); D.d(cp); std::ostringstream os; int id = 1; k.toSTEP(os, id); D.s(os.str());
}
inline void readCurveSlow(const NURBSCurve &k, Rng &g, Dig &D) { double lo = k._interval[0], hi = k._interval[1]; D.d(k.length()); double t = lo + (hi - lo) * g.uni(.2, .8); double l = k.length(t); D.d(l); NURBSCurve q(k); D.d(q.lengthAt(l, lo, t)); }
inline void readSurface(const NURBSSurface &s, Rng &g, Dig &D) {
    auto &iv = s._interval; auto U = [&] { return iv[0][0] + (iv[0][1] - iv[0][0]) * g.uni(.01, .99); }; auto V = [&] { return iv[1][0] + (iv[1][1] - iv[1][0]) * g.uni(.01, .99); }; vec3 p;
    for (int i = 0; i < 4; ++i) { s.evaluate(par(g, iv[0][0], iv[0][1]), par(g, iv[1][0], iv[1][1]), p); D.d(p); s.derivative_u(U(), V(), p); D.d(p); s.derivative_v(U(), V(), p); D.d(p); s.normal(U(), V(), p); D.d(p); }
    D.d(s.get_derivative(g.i(0, 1))); auto a = s.split_surface_u(U()); D.d(a.first); D.d(a.second); auto b = s.split_surface_v(V()); D.d(b.first); D.d(b.second);
    D.d(s.extract_isocurve(U(), SurfaceParameter::U)); D.d(s.extract_isocurve(V(), SurfaceParameter::V)); std::array<NURBSCurve, 4> bd; s.extract_surface_boundaries(bd); for (auto &q : bd) D.d(q); D.d(cmmcore::extract_isocurve(s, U(), SurfaceParameter::U)); std::array<NURBSCurve, 4> be; cmmcore::extract_surface_boundaries(s, be); for (auto &q : be) D.d(q);
    std::vector<NURBSSurface> bz; s.decompose(bz); D.u(bz.size()); for (auto &q : bz) D.d(q); D.d(s.control_points_flat3d()); std::ostringstream os; int id = 1; s.toSTEP(os, id); D.s(os.str()); NURBSSurface cp(s); D.d(cp); std::array<NURBSSurface, 4> q; s.subdivide(q[0], q[1], q[2], q[3]); for (auto &x : q) D.d(x);
}
inline void digest(const Intersection &r, Dig &D) { D.u(r.points.size()); for (auto &p : r.points) { D.d(p.xyz); D.d(p.uv1); D.d(p.uv2); } D.u(r.patches.size()); for (auto &p : r.patches) for (auto *e : {&p.start, &p.end}) { D.d(e->point); for (double x : e->surface1_params) D.d(x); for (double x : e->surface2_params) D.d(x); } }
inline void digest(const std::vector<IntersectionPoint> &r, Dig &D) { D.u(r.size()); for (auto &x : r) { D.d(x.point); D.d(x.curve_param); D.u(x.boundary_index); D.u(x.is_from_first_surface); for (double v : x.surface1_params) D.d(v); for (double v : x.surface2_params) D.d(v); for (double v : x.surface_params) D.d(v); } }
inline void pairCCX(NURBSCurve a, NURBSCurve b, double tol, Dig &D) { std::vector<std::pair<double, double>> r; ccx(a, b, tol, r); D.u(r.size()); for (auto &x : r) { D.d(x.first); D.d(x.second); } }
inline void pairCSX(const NURBSCurve &a, const NURBSSurface &s, double tol, Dig &D) { CSXIntersections r; csx(a, s, r, tol); D.u(r.size()); for (auto &x : r) { D.u((uint64_t) std::get<0>(x)); D.d(std::get<1>(x)); for (double v : std::get<2>(x)) D.d(v); } }
inline void pairBoundary(const NURBSSurface &a, const NURBSSurface &b, double tol, Dig &D) { std::vector<IntersectionPoint> r; find_boundary_intersections(a, b, r, tol); digest(r, D); std::vector<std::vector<IntersectionPoint>> q; sort_boundary_intersections(r, q); D.u(q.size()); for (auto &x : q) digest(x, D); }
inline void pairSSX(const NURBSSurface &a, const NURBSSurface &b, double tol, Dig &D) { Intersection r; findStartIntersectionPoints(a, b, tol, r); digest(r, D); }
inline void readBVH(const BVHNode *root, Rng &g, Dig &D) { for (int i = 0; i < 4; ++i) { vec3 p = pt(g, 8); std::vector<const Object3D *> h2; traverse_bvh(root, AABB(p, p + vec3(g.uni(0, 6), g.uni(0, 6), g.uni(0, 6))), h2); D.u(h2.size()); for (auto *o : h2) D.d(o->bounding_box); h2.clear(); contains_point(root, pt(g, 8), h2); D.u(h2.size()); } D.s(output_bvh_nodes(root)); }
inline void readKD(const KDTree3D &t, Rng &g, Dig &D) { D.u(t.size()); for (int i = 0; i < 5; ++i) { if (!t.empty()) D.d(t.nearestNeighbor(pt(g, 6))); vec3 p = pt(g, 5); D.d(t.rangeSearch(p, p + vec3(g.uni(0, 5), g.uni(0, 5), g.uni(0, 5)))); } }

// ---- self-contained ops
inline void oCurve(Rng &g, Dig &D) { CurveOpt o; o.open = .1; auto k = curve(g, o); readCurve(k, g, D); }
inline void oCurveLength(Rng &g, Dig &D) { auto k = wiggle(g, g.p(.5), g.uni(2, 9), g.uni(.2, 2)); readCurveSlow(k, g, D); }
inline void oCurveEdit(Rng &g, Dig &D) {
    CurveOpt o; o.open = .1; auto k = curve(g, o); double lo = k._interval[0], hi = k._interval[1]; for (int i = 0; i < 3; ++i) { double t = lo + (hi - lo) * g.uni(.05, .95); int n = g.i(1, k._degree); k.insert_knot(t, n); D.d(k); if (g.p(.3)) { int m = find_multiplicity(t, k.knots); if (m > 0 && m <= k._degree) { auto r = knot_removal(k._degree, k.knots, k.control_points, t, 1e-7, 1); for (auto &v : r) D.d(v); } } }
    if (g.p(.4)) { auto P = k.control_points; auto r = knot_refinement(k._degree, k.knots, P); for (auto &v : r.first) D.d(v); D.d(r.second); } if (g.p(.5)) k.normalize_knots(); D.d(k); D.d(k.aabb()); k.rebuildAABB(); D.d(k.bbox());
    if (g.p(.3)) { auto q = curve(g, o); if (q.control_points.size() > (size_t) q._degree + 1) { q.make_periodic(); D.d(q); vec3 p; q.evaluate(par(g, q._interval[0], q._interval[1]), p); D.d(p); } } std::vector<int> ml; std::vector<double> uk = k.knots, un; uniqueKnots(uk, un); D.d(un); auto kv = knot_insertion_kv(k.knots, lo + .37 * (hi - lo), find_span((int) k.control_points.size() - 1, k._degree, lo + .37 * (hi - lo), k.knots, false), 1); D.d(kv);
}
inline void oSurface(Rng &g, Dig &D) { SurfOpt o; o.open = .12; o.maxDeg = 3; o.maxExtra = 3; auto s = surface(g, o); readSurface(s, g, D); }
inline void oSurfaceEdit(Rng &g, Dig &D) { SurfOpt o; o.open = .12; o.maxDeg = 3; auto s = surface(g, o); for (int i = 0; i < 3; ++i) { int d = g.i(0, 1); double t = s._interval[d][0] + (s._interval[d][1] - s._interval[d][0]) * g.uni(.05, .95); if (d) s.insert_knot_v(t, g.i(1, s._degree[1])); else s.insert_knot_u(t, g.i(1, s._degree[0])); D.d(s); } s.rebuildAABB(); D.d(s.aabb()); NURBSSurface m; m = std::move(s); D.d(m); }
inline void oDerivs(Rng &g, Dig &D) { // the free evaluation functions
    CurveOpt o; auto k = curve(g, o); int p = k._degree, n = (int) k.control_points.size() - 1; double u = par(g, k._interval[0], k._interval[1]); int sp = find_span(n, p, u, k.knots, false); D.u(sp); std::array<double, CMMCORE_DEG_STACK_SIZE> N; basis_funs(sp, u, p, k.knots, N); for (int i = 0; i <= p; ++i) D.d(N[i]); std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE>> ders; int dn = std::min(2, p); ders.resize(dn + 1); ders_basis_funs(sp, u, p, dn, k.knots, ders); for (int j = 0; j <= dn; ++j) for (int i = 0; i <= p; ++i) D.d(ders[j][i]);
    std::vector<vec4> CK(3); curve_derivs_alg1(n, p, k.knots, k.control_points, u, 2, CK, false); for (auto &v : CK) D.d(v); std::vector<vec3> ck(3); rat_curve_derivs(CK, 3, ck); D.d(ck); D.u(find_multiplicity(u, k.knots)); D.d(snap_to_knot(u, k.knots));
    std::vector<std::vector<vec4>> SK(3, std::vector<vec4>(3)); for (auto &r : SK) for (auto &v : r) v = vec4(g.gauss(), g.gauss(), g.gauss(), g.uni(.5, 2)); std::vector<std::vector<vec4>> out; rat_surface_derivs(SK, 2, out); for (int i = 0; i <= 2; ++i) for (int j = 0; i + j <= 2; ++j) { D.d(out[i][j].x); D.d(out[i][j].y); D.d(out[i][j].z); }
}
inline void oCCX(Rng &g, Dig &D) { bool pl = g.p(.6); auto a = wiggle(g, pl, g.uni(2, 8), g.uni(.5, 3)), b = wiggle(g, pl, g.uni(2, 8), g.uni(.5, 3)); auto P = b.get_control_points(); for (auto &v : P) std::swap(v.x, v.y); b.set_control_points(P); pairCCX(a, b, pow(10, -g.uni(1.5, 3)), D); }
inline void oCSX(Rng &g, Dig &D) { auto s = sheet(g, g.uni(4, 8), g.uni(0, 1), false); auto k = wiggle(g, false, g.uni(2, 5), g.uni(.2, 1)); auto P = k.get_control_points(); for (auto &v : P) std::swap(v.x, v.z); k.set_control_points(P); pairCSX(k, s, pow(10, -g.uni(1.5, 3)), D); }
inline void oBoundary(Rng &g, Dig &D) { auto a = sheet(g, g.uni(4, 8), g.uni(0, .8), false), b = sheet(g, g.uni(2, 6), g.uni(0, .6), true); if (g.p(.5)) std::swap(a, b); pairBoundary(a, b, pow(10, -g.uni(2, 3)), D); }
inline NURBSSurface dome(Rng &g, double L, double h, double k, double e) { int n = 3; std::vector<std::vector<vec4>> P(n, std::vector<vec4>(n)); double q = -k * L * L / 4; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double x = L * (i - 1) / 2, y = L * (j - 1) / 2; P[i][j] = vec4(x, y, h + (i == 1 ? -q : q) + e * (j == 1 ? -q : q) + .01 * g.u(), 1); } return NURBSSurface(P, {2, 2}, {0, 0, 0, 1, 1, 1}, {0, 0, 0, 1, 1, 1}); }
inline void oSSX(Rng &g, Dig &D) { if (g.p(.3)) { auto a = dome(g, 4, g.uni(0, .4), g.uni(.2, .5), g.uni(-1, 1)), b = dome(g, 4, 0, g.uni(-.3, .1), 1); pairSSX(a, b, g.uni(.02, .1), D); return; } auto a = sheet(g, g.uni(4, 8), g.uni(.1, .8), false, 2, 0), b = sheet(g, g.uni(3, 6), g.uni(.1, .6), true, 2, 0); pairSSX(a, b, pow(10, -g.uni(1.5, 2.5)), D); }
inline void oBVH(Rng &g, Dig &D) { int n = g.p(.1) ? g.i(0, 2) : g.i(1, 60); bool same = g.p(.1); vec3 q = pt(g); std::vector<Object3D> ob; ob.reserve(n); for (int i = 0; i < n; ++i) { vec3 p = same ? q : g.p(.3) ? lat(g) : pt(g, 8); ob.emplace_back(AABB(p, p + vec3(g.i(0, 2), g.i(0, 2), g.uni(0, 2))), i); } std::vector<Object3D *> ps; for (auto &o : ob) ps.push_back(&o); if (ps.empty()) return; auto r = build_bvh(ps, g.p(.5)); readBVH(r.get(), g, D); BVHNode cp(*r); auto r2 = std::make_unique<BVHNode>(cp); std::vector<std::pair<const BVHNode *, const BVHNode *>> pairs; intersect_bvh(r.get(), r2.get(), pairs); if (g.p(.5)) intersect_bvh_iterative(r.get(), r2.get(), pairs); D.u(pairs.size()); for (auto &x : pairs) { D.d(x.first->bounding_box); D.d(x.second->bounding_box); } }
inline void oKD(Rng &g, Dig &D) { KDTree3D t; std::vector<vec3> p; int n = g.i(0, 60); for (int i = 0; i < n; ++i) p.push_back(g.p(.3) ? lat(g) : pt(g)); t.build(p); readKD(t, g, D); for (int i = g.i(0, 8); i--;) t.insert(g.p(.3) ? lat(g) : pt(g)); readKD(t, g, D); KDTree3D u(t), w; w = u; w = std::move(u); readKD(w, g, D); }
inline void oAABB(Rng &g, Dig &D) { vec3 a = pt(g), b = pt(g); AABB x(a, a + vec3(g.u(), g.u(), g.u()) * 3), y(b, b + vec3(g.u(), g.u(), g.u()) * 3), r; D.u(x.intersects(y)); bool k = x.intersection(y, r); D.u(k); if (k) D.d(r); D.d(x.merge(y)); x.expand(pt(g)); D.d(x); D.d(x.volume()); AABB e; D.u(e.infinity()); e.expand(a); D.d(e); auto c = cloud(g, g.i(1, 9)); AABB f(c); D.d(f); D.s(output_aabb(f)); }
inline void oHull2(Rng &g, Dig &D) { std::vector<vec2> v; int n = g.i(0, 40); for (int i = 0; i < n; ++i) v.emplace_back(g.p(.3) ? vec2(g.i(-2, 2), g.i(-2, 2)) : vec2(g.uni(-3, 3), g.uni(-3, 3))); auto r = convex_hull2d(v); D.u(r.size()); for (auto &p : r) D.d(p); std::vector<vec2> q; D.u((uint64_t) convex_hull((const std::vector<vec2> &) v, q)); for (auto &p : q) D.d(p); }
inline void oHull3(Rng &g, Dig &D) { auto v = cloud(g, g.i(1, 40)); std::vector<vec3> r; D.u((uint64_t) convex_hull(v, r)); D.d(r); std::vector<vec3> q; convex_hull3d(v, q); D.d(q); }
inline void oSeparate(Rng &g, Dig &D) { auto a = cloud(g, g.i(1, 14)), b = cloud(g, g.i(1, 14)); D.u(SAT3D(a, b)); std::vector<vec3> sx; vec3 cl; double tl = g.p(.5) ? 1e-10 : std::numeric_limits<double>::epsilon(); bool k = GJK(a, b, sx, cl, tl); D.u(k); if (!k) D.d(cl); auto p = poly(g, g.i(3, 9), g.uni(.3, 3), vec2(0, 0)), q = poly(g, g.i(3, 9), g.uni(.3, 3), vec2(g.uni(-3, 3), g.uni(-3, 3))); if (g.p(.2)) p.push_back(p.back()); D.u(SAT2D(p, q)); }
inline void oSpherical(Rng &g, Dig &D) { std::vector<vec3> a, b; vec3 o = pt(g).unit(), q = pt(g).unit(); for (int i = g.i(1, 12); i--;) a.push_back((o + pt(g, .4)).unit() * g.uni(.5, 2)); for (int i = g.i(1, 12); i--;) b.push_back((q + pt(g, .4)).unit()); D.u(SphericalSeparabilityTest(a, b)); D.u(SphericalCentralProjectionTest(a, b)); }
inline void oPolygon(Rng &g, Dig &D) { auto p = poly(g, g.i(3, 12), g.uni(.5, 3), vec2(0, 0)), q = poly(g, g.i(3, 9), g.uni(.3, 3), vec2(g.i(-3, 3), g.uni(-3, 3))); if (g.p(.2)) p.insert(p.begin() + g.i(0, (int) p.size() - 1), p[0]); for (int i = 0; i < 5; ++i) D.u(pointInPolygon2D(p, g.p(.3) ? g.pick(p) : vec2(g.uni(-3, 3), g.uni(-3, 3)))); D.u((uint64_t) polygonRelationship2D(p, q)); std::vector<vec2> n; polygonNormals(p, n, g.p(.5)); for (auto &v : n) D.d(v); UnorderedNormal2Set u; polygonUniqueNormals(p, u, g.p(.5)); std::vector<std::pair<double, double>> o; for (auto &v : u) o.push_back({v.x, v.y}); std::sort(o.begin(), o.end()); for (auto &v : o) { D.d(v.first); D.d(v.second); } }
inline void oClosest(Rng &g, Dig &D) { auto P = [&] { return g.p(.3) ? lat(g) : pt(g); }; for (int i = 0; i < 4; ++i) { vec3 a = P(), b = P(), c = P(), d = P(); D.d(closestPointOnRay(a, b, c)); D.d(closestPointOnLine(a, b, c)); D.d(closestPointOnSegm(a, b, c)); D.d(closestPointOnSegm(a, b)); D.d(closestPointOnTriangle(a, b, c)); D.d(closestPointOnTriangle(a, b, c, d)); double s = 0, t = 0; D.d(segmentsDistance(a, b, c, d)); std::vector<vec3> sx{a, b, c, d}; sx.resize(g.i(1, 4)); D.d(closestPointOnSimplex(sx)); } }
inline void oPlane(Rng &g, Dig &D) { auto mk = [&] { switch (g.i(0, 3)) { case 0: return plane(g.gauss(), g.gauss(), g.gauss() + 3, g.gauss()); case 1: return plane(pt(g)); case 2: return plane(pt(g), pt(g)); default: return plane(std::make_tuple(pt(g), pt(g), pt(g))); } }; plane a = mk(), b = mk(), c = g.p(.2) ? a : mk(); D.d(a.normal); D.d(a.equation); D.d(a.origin); vec3 p, q; D.d(a.signedDistance(pt(g))); std::vector<double> r; a.signedDistance(cloud(g, 5), r); D.d(r); bool k; k = a.planeRayIntersection(pt(g), pt(g), p); D.u(k); if (k) D.d(p); k = a.planeLineIntersection(pt(g), pt(g), p); D.u(k); if (k) D.d(p); k = a.planePlaneIntersection(b, p, q); D.u(k); if (k) { D.d(p); D.d(q); } k = a.planePlanePlaneIntersection(b, c, p); D.u(k); if (k) D.d(p); D.u(isPtsCoplanar(cloud(g, g.i(0, 8)), 1e-9)); }
inline void oMatrix(Rng &g, Dig &D) { int n = g.i(1, 6), m = g.i(1, 6); MatrixD A(n, m), B(m, n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { A(i, j) = g.i(-4, 4); B(j, i) = g.gauss(); } auto put = [&](const MatrixD &M) { for (size_t i = 0; i < M.getRows(); ++i) for (size_t j = 0; j < M.getCols(); ++j) D.d(M(i, j)); }; auto C = A * B; put(C); put(A.transpose()); try { put(C.inverse()); } catch (const std::exception &) { D.u(77); } MatrixSq<3> H{}, L{}; for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) H[i][j] = H[j][i] = g.gauss() + (i == j ? 3 : 0); bool k = choleskyDecomposition<3>(H, L); D.u(k); if (k) for (auto &r : L) for (double v : r) D.d(v); std::array<double, 2> b{g.gauss(), g.gauss()}, x{}; Matrix2x2 M = Matrix2x2::fromDiag({g.gauss(), g.gauss()}); bool s = solve2x2(M, b, x); D.u(s); if (s) { D.d(x[0]); D.d(x[1]); } }
inline void oMinimize(Rng &g, Dig &D) { double m = g.uni(-2, 2), a = g.uni(-4, 0), b = a + g.uni(.1, 6); int kind = g.i(0, 3); OptimizeResult<double> r; minimize_scalar_bounded<double>([=](double x) { return kind == 0 ? (x - m) * (x - m) : kind == 1 ? std::abs(x - m) : kind == 2 ? std::sin(3 * x) : 1.0; }, {a, b}, r, 1e-6, g.i(3, 200)); D.d(r.x); D.d(r.fun); D.u(r.nfev); D.u(r.nit); D.u(r.status); D.u(r.success); D.s(r.message); }
inline void oNewton(Rng &g, Dig &D) { double a = g.uni(.5, 3), b = g.uni(.5, 3), p = g.uni(-1, 1), q = g.uni(-1, 1); std::function<double(const Vector<2> &)> f = [=](const Vector<2> &x) { return a * (x[0] - p) * (x[0] - p) + b * (x[1] - q) * (x[1] - q) + .2 * std::cosh(x[0] - x[1] - p + q); }; Vector<2> x{g.uni(-2, 2), g.uni(-2, 2)}; auto gr = computeGradient<2>(f, x); for (double v : gr) D.d(v); auto Hs = computeHessian<2>(f, x); for (auto &r : Hs) for (double v : r) D.d(v); auto r = newtonsMethod<2>(f, x); for (double v : r) D.d(v); }
inline NURBSSurface bezier(Rng &g, int deg) { SurfOpt o; o.maxDeg = deg; o.maxExtra = 0; o.rational = 0; o.knotKind = 0; return surface(g, o); }
inline void oMonomial(Rng &g, Dig &D) { auto s = bezier(g, 4); Monomial2D m(s), n; auto put = [&](const Monomial2D &q) { D.u(q.n); D.u(q.m); for (auto &r : q.coefficients) for (auto &v : r) D.d(v); }; put(m); m.computeNormal(n); put(n); Monomial2D pu, pv; m.computePartialDerivative(SurfaceParameter::U, pu); m.computePartialDerivative(SurfaceParameter::V, pv); put(pu); put(pv); NURBSSurface b; m.to_bezier(b); D.d(b); n.to_bezier(b); D.d(b); }
inline void oGauss(Rng &g, Dig &D) { auto s = bezier(g, 3), t = bezier(g, 3); D.d(gaussMap(s)); GaussMap G1(s), q[4]; G1.subdivide(q[0], q[1], q[2], q[3]); for (auto &x : q) { D.d(x.surf); D.d(x.pts); D.d(x.pts_inv); } D.u(gaussMapSeparability(s, t)); }
inline void oSerialize(Rng &g, Dig &D) { std::vector<NURBSCurve> cs; for (int i = g.i(0, 4); i--;) cs.push_back(curve(g)); auto b = serializeNURBSCurves(cs); D.u(b.size()); for (auto ch : b) D.u((uint8_t) ch); auto r = deserializeNURBSCurves(b); for (auto &k : r) D.d(k); if (b.size() > 3 && g.p(.5)) { b.resize(g.i(0, (int) b.size() - 1)); try { auto z = deserializeNURBSCurves(b); D.u(z.size()); } catch (const std::exception &) { D.u(5); } } }
inline void oMemView(Rng &g, Dig &D) { size_t a = g.i(1, 5), b = g.i(1, 5), c = g.i(1, 4); std::vector<double> buf(a * b * c); for (auto &x : buf) x = g.gauss(); MemoryView<double> v(buf.data(), {a, b, c}); for (int i = 0; i < 3; ++i) { auto w = v.slice({Slice(g.i(-6, 6), g.i(-6, 6), g.i(1, 3)), g.p(.5) ? Slice() : Slice(g.i(0, (int) b - 1))}); D.u(w.size()); D.u(w.shape().size()); auto ser = w.serialize(); for (char ch : ser) D.u((uint8_t) ch); auto z = MemoryView<double>::deserialize(ser); D.u(z.size()); std::unique_ptr<MemoryView<double>> cp(w.copy()); D.u(cp->size()); } try { v.reshape({a * b, c}); D.u(v.shape()[0]); v(std::vector<size_t>{0, 0}) = 3; } catch (const std::exception &) { D.u(9); } D.d(buf); }
inline void oSTEP(Rng &g, Dig &D) { SurfOpt o; o.maxDeg = 3; o.maxExtra = 2; auto s = surface(g, o); static thread_local int serial = 0; std::string fn = S("w", getpid(), "_", (unsigned long) pthread_self(), "_", serial++, ".step"); s.writeSTEPFile(fn); std::ifstream f(fn); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); f.close(); unlink(fn.c_str()); size_t at; while ((at = t.find(fn)) != std::string::npos) t.replace(at, fn.size(), "F"); D.s(undated(t)); D.s(stepNumber(g.gauss())); D.s(formatReal(g.gauss())); D.u(getCurrentDateTime().size()); }
inline void oInvert(Rng &g, Dig &D) { auto k = wiggle(g, g.p(.5), 6, 1); double t = par(g, k._interval[0], k._interval[1]); vec3 p; k.evaluate(t, p); double u0 = std::min(k._interval[1], std::max(k._interval[0], t + .05 * g.uni(-1, 1))); D.d(point_inversion_curve(k, p + pt(g, .1), u0, 1e-6, 1e-6, 50)); auto s = sheet(g, 6, .6, g.p(.5), 2); double u = s._interval[0][0] + (s._interval[0][1] - s._interval[0][0]) * g.uni(.1, .9), v = s._interval[1][0] + (s._interval[1][1] - s._interval[1][0]) * g.uni(.1, .9); s.evaluate(u, v, p); try { auto r = point_inversion_surface(s, p + pt(g, .1), u, v, 1e-6, 1e-6, 50); D.d(r[0]); D.d(r[1]); } catch (const std::exception &) { D.u(3); } }
inline void oPolyline(Rng &g, Dig &D) { std::vector<Segment> sg; int n = g.i(0, 30); for (int i = 0; i < n; ++i) { Segment s; s.p1 = lat(g); s.p2 = lat(g); sg.push_back(s); } std::vector<std::list<vec3>> br; assemble_polylines(sg, br); D.u(br.size()); for (auto &b : br) { D.u(b.size()); for (auto &p : b) D.d(p); } }
inline void oVec(Rng &g, Dig &D) { vec3 a = pt(g), b = pt(g); D.d(a.cross(b)); D.d(a.dot(b)); D.d(a.unit()); D.d(a.collinear(b)); vec2 c(g.gauss(), g.gauss()); D.d(c.length()); D.u(a < b); std::ostringstream o; o << a << c; D.s(o.str()); vec3 sp, bk; cartesian_to_spherical(a, sp); D.d(sp); spherical_to_cartesian(sp, bk); D.d(bk); vec2 q; centerProjectionToXY(a, b, q); D.d(q); D.d(calc_epsilon(a.x)); }
inline void oQuad(Rng &g, Dig &D) { double a = g.uni(-2, 2), b = a + g.uni(0, 4), w = g.uni(.5, 6); double r, e; integrate([=](double x) { return std::sin(w * x) + std::sqrt(x - a + 1e-9); }, a, b, r, e, 1e-7); D.d(r); D.d(e); std::function<double(double)> sp = [=](double x) { return 1 + .5 * std::sin(x); }; D.d(find_t1_newton(0, g.uni(.1, 2), sp, g.uni(.1, 2))); }

typedef void (*OpFn)(Rng &, Dig &);
struct Op { const char *name; OpFn fn; int weight; };
#define W_OPS(X) X(Curve, 30) X(CurveLength, 3) X(CurveEdit, 40) X(Surface, 8) X(SurfaceEdit, 20) X(Derivs, 40) X(CCX, 4) X(CSX, 2) X(Boundary, 1) X(SSX, 1) X(BVH, 20) X(KD, 30) X(AABB, 60) X(Hull2, 40) X(Hull3, 20) X(Separate, 20) X(Spherical, 20) X(Polygon, 40) X(Closest, 60) X(Plane, 60) X(Matrix, 40) X(Minimize, 40) X(Newton, 30) X(Monomial, 20) X(Gauss, 10) X(Serialize, 20) X(MemView, 30) X(STEP, 6) X(Invert, 4) X(Polyline, 30) X(Vec, 60) X(Quad, 20)
inline const std::vector<Op> &ops() { static std::vector<Op> v = {
#define W_ROW(n, w) {#n, o##n, w},
    W_OPS(W_ROW)
}; return v; }
inline void run(const Op &o, uint64_t seed, Dig &D) { Rng g(seed); try { o.fn(g, D); } catch (const std::exception &e) { D.s(std::string("exception ") + typeid(e).name() + e.what()); } }
}
