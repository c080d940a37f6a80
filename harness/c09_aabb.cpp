// Reported boxes enclose the geometry and equal the control-point box, however the object was made.
#include "gen.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/monomial.h"
#include "cmmcore/gauss_map.h"
#include "cmmcore/serialization.h"
using namespace G; using cmmcore::AABB;
static AABB boxOf(const std::vector<vec4> &P) { AABB b; b.min = vec3(1e300); b.max = vec3(-1e300); for (auto &v : P) { double q[3] = {v.x / v.w, v.y / v.w, v.z / v.w}; for (int i = 0; i < 3; ++i) { b.min[i] = std::min(b.min[i], q[i]); b.max[i] = std::max(b.max[i], q[i]); } } return b; }
static bool eq(const AABB &a, const AABB &b, double tol) { for (int i = 0; i < 3; ++i) if (!(std::fabs(a.min[i] - b.min[i]) <= tol && std::fabs(a.max[i] - b.max[i]) <= tol)) return false; return true; }
static std::string str(const AABB &a) { return G::str(a.min) + ".." + G::str(a.max); }
static bool in(const AABB &b, const vec3 &p, double tol) { for (int i = 0; i < 3; ++i) if (!(p[i] >= b.min[i] - tol && p[i] <= b.max[i] + tol)) return false; return true; }
static void verify(Case &c, NURBSCurve k, const char *how) { AABB cached = k.aabb(), fresh = k.bbox(), want = boxOf(k.control_points); double tol = 1e-12 * (double) scaleOf(toRef(k));
    c.check(eq(cached, want, tol), S("curve-aabb@", how), [&] { return S("aabb() ", str(cached), " control points ", str(want)); }); c.check(eq(fresh, want, tol), S("curve-bbox@", how), [&] { return S("bbox() ", str(fresh), " control points ", str(want)); });
    for (int i = 0; i < 12; ++i) { double t = c.rng.uni(k.knots[k._degree], k.knots[k.control_points.size()]); if (i < 2) t = i ? k.knots[k.control_points.size()] : k.knots[k._degree]; vec3 p; k.evaluate(t, p); c.check(in(cached, p, 1e3 * tol), S("curve-outside@", how), [&] { return S("t=", t, " point ", G::str(p), " box ", str(cached)); }); } }
static void verify(Case &c, NURBSSurface s, const char *how) { std::vector<vec4> all; for (auto &r : s._control_points) for (auto &v : r) all.push_back(v); AABB cached = s.aabb(), fresh = s.bbox(), want = boxOf(all); double tol = 1e-12 * (double) scaleOf(toRef(s));
    c.check(eq(cached, want, tol), S("surface-aabb@", how), [&] { return S("aabb() ", str(cached), " control points ", str(want)); }); c.check(eq(fresh, want, tol), S("surface-bbox@", how), [&] { return S("bbox() ", str(fresh), " control points ", str(want)); });
    for (int i = 0; i < 12; ++i) { double u = c.rng.uni(s._interval[0][0], s._interval[0][1]), v = c.rng.uni(s._interval[1][0], s._interval[1][1]); vec3 p; s.evaluate(u, v, p); c.check(in(cached, p, 1e3 * tol), S("surface-outside@", how), [&] { return S("u=", u, " v=", v, " point ", G::str(p), " box ", str(cached)); }); } }
SUITE(curves, 2500, 50000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 6; o.open = .2; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); verify(c, k, "constructed");
    { NURBSCurve d(k.control_points, k._degree, g.p(.3)); verify(c, d, "default-knots"); std::vector<vec3> p3s; for (auto &v : k.control_points) p3s.push_back(v.to_vec3()); NURBSCurve e(p3s, k._degree); verify(c, e, "from-points"); }
    NURBSCurve cp(k); verify(c, cp, "copied"); NURBSCurve as; as = k; verify(c, as, "assigned"); NURBSCurve mv(std::move(cp)); verify(c, mv, "moved");
    { NURBSCurve sp = k; double t = interior(g, k.knots, k._degree, (int) k.control_points.size() - 1); if (!nearKnot(k.knots, t, 1e-6)) { auto pr = sp.split(t); verify(c, pr.first, "split"); verify(c, pr.second, "split"); if (mult(k.knots, t) < k._degree) { sp.insert_knot(t, 1); verify(c, sp, "refined"); } } }
    { NURBSCurve sc = k; auto P = k.control_points; vec3 off(g.uni(-50, 50), g.uni(-50, 50), g.uni(-50, 50)); for (auto &v : P) { v.x += off.x * v.w; v.y += off.y * v.w; v.z += off.z * v.w; } if (g.p(.4)) P.push_back(vec4(off.x, off.y, off.z, 1)); sc.set_control_points(P); verify(c, sc, "new-control-points"); }
    { NURBSCurve src = k; std::vector<uint8_t> buf = cmmcore::serializeNURBSCurve(src); const uint8_t *p = buf.data(); verify(c, cmmcore::deserializeNURBSCurve(p), "read-back"); }
    if (!k.is_periodic()) { NURBSCurve a = k, b(std::vector<vec4>{k.control_points.back(), vec4(g.uni(-90, 90), g.uni(-90, 90), g.uni(-90, 90), 1)}, 1, false), r; if (a.join(b, r)) verify(c, r, "joined"); }
    { NURBSCurve n = k; n.normalize_knots(); verify(c, n, "normalised"); }
    std::vector<NURBSCurve> bz; k.decompose(bz); for (auto &b : bz) verify(c, b, "decomposed");
    if (k._degree >= 2) { NURBSCurve q = k; for (auto &v : q.control_points) v.w = 1; q.rebuildAABB(); bool ok = true; int run = 1; for (size_t i = k._degree + 1; i < k.control_points.size(); ++i) { run = k.knots[i] == k.knots[i - 1] ? run + 1 : 1; ok = ok && run < k._degree; } if (ok) { verify(c, q.get_derivative(), "derivative"); NURBSCurve into = q; q.get_derivative(into); verify(c, into, "derivative-into"); } }
}
SUITE(surfaces, 1500, 30000) {
    Rng &g = c.rng; SurfOpt so; so.open = .15; auto s = surface(g, so); describe(c, s); c.nontrivial(fp(s)); verify(c, s, "constructed"); NURBSSurface cp(s); verify(c, cp, "copied"); NURBSSurface as; as = s; verify(c, as, "assigned"); NURBSSurface mv(std::move(cp)); verify(c, mv, "moved");
    { std::vector<std::vector<vec3>> P = s.control_points3d(); NURBSSurface e(P, s._degree); verify(c, e, "from-points"); }
    int dir = g.i(0, 1); auto &K = dir ? s._knots_v : s._knots_u; double t = interior(g, K, s._degree[dir], (int) s._size[dir] - 1);
    if (!nearKnot(K, t, 1e-6)) { auto pr = dir ? s.split_surface_v(t) : s.split_surface_u(t); verify(c, pr.first, "split"); verify(c, pr.second, "split"); if (mult(K, t) < s._degree[dir]) { NURBSSurface q = s; q.insert_knot(t, dir, 1); verify(c, q, "refined"); } }
    { double um = .5 * (s._interval[0][0] + s._interval[0][1]), vm = .5 * (s._interval[1][0] + s._interval[1][1]); if (!nearKnot(s._knots_u, um, 1e-6) && !nearKnot(s._knots_v, vm, 1e-6)) for (auto &q : s.subdivide()) verify(c, q, "subdivided"); }
    if (s._size[0] < 7 && s._size[1] < 7) { auto B = s; for (auto &r : B._control_points) for (auto &v : r) v = vec4(v.x / v.w, v.y / v.w, v.z / v.w, 1); NURBSSurface bz(B._control_points, {(int) B._size[0] - 1, (int) B._size[1] - 1}); cmmcore::Monomial2D m(bz); NURBSSurface out; if (g.p(.5)) out = s; m.to_bezier(out); verify(c, out, "from-monomial");
        verify(c, cmmcore::gaussMap(bz), "gauss-map"); cmmcore::GaussMap gm(bz), q[4]; verify(c, gm.surf, "gauss-map-class"); gm.subdivide(q[0], q[1], q[2], q[3]); for (auto &x : q) verify(c, x.surf, "gauss-map-quarter"); }
    for (int d = 0; d < 2; ++d) if (s._degree[d] >= 2) { auto q = s; for (auto &r : q._control_points) for (auto &v : r) v.w = 1; bool ok = true; auto &U = d ? q._knots_v : q._knots_u; int run = 1; for (int i = q._degree[d] + 1; i < q._size[d]; ++i) { run = U[i] == U[i - 1] ? run + 1 : 1; ok = ok && run < q._degree[d]; } if (ok) { verify(c, q.get_derivative(d), "derivative"); auto into = q; q.get_derivative(d, into); verify(c, into, "derivative-into"); } }
    std::vector<NURBSSurface> bz; s.decompose(bz); for (auto &b : bz) verify(c, b, "decomposed");
    for (auto d : {SurfaceParameter::U, SurfaceParameter::V}) { int i = d == SurfaceParameter::U ? 0 : 1; double p = g.uni(s._interval[i][0], s._interval[i][1]); verify(c, s.extract_isocurve(p, d), "isocurve"); verify(c, cmmcore::extract_isocurve(s, p, d), "isocurve-free"); }
    std::array<NURBSCurve, 4> B; s.extract_surface_boundaries(B); for (auto &b : B) verify(c, b, "boundary"); std::array<NURBSCurve, 4> B2; cmmcore::extract_surface_boundaries(s, B2); for (auto &b : B2) verify(c, b, "boundary-free");
}
HARNESS_MAIN
