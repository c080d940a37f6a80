// Closest-point primitives against long-double optimality conditions and dense sampling of the primitive.
#include "common.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/gjk.h"
using namespace H; using namespace cmmcore;
struct P { ld x, y, z; P operator-(const P &o) const { return {x - o.x, y - o.y, z - o.z}; } P operator+(const P &o) const { return {x + o.x, y + o.y, z + o.z}; } P operator*(ld s) const { return {x * s, y * s, z * s}; } ld dot(const P &o) const { return x * o.x + y * o.y + z * o.z; } ld norm() const { return sqrtl(dot(*this)); } };
#include "minnorm.h"
static P T(const vec3 &v) { return {v.x, v.y, v.z}; }
static std::string s3(const vec3 &v) { return S("(", v.x, ",", v.y, ",", v.z, ")"); }
static uint64_t fp(std::initializer_list<vec3> l) { uint64_t h = 1; for (auto &p : l) h = hcomb(hcomb(hcomb(h, hd(p.x)), hd(p.y)), hd(p.z)); return h; }
// distance from q to the hull of pts: certified lower bound and attained upper bound
static ld hullDist(const vec3 &q, const std::vector<vec3> &pts, ld &up) { std::vector<P> d; for (auto &p : pts) d.push_back(T(p) - T(q)); P x; ld lo = minNormLow(d, &x); up = x.norm(); return lo; }
static ld extent(const vec3 &q, const std::vector<vec3> &pts) { ld m = T(q).norm(); for (auto &p : pts) m = std::max(m, T(p).norm()); return m; }
static vec3 rv(Rng &g, double s) { return vec3(g.gauss() * s, g.gauss() * s, g.gauss() * s); }
static vec3 lat(Rng &g, double s) { return vec3(g.i(-3, 3) * s, g.i(-3, 3) * s, g.i(-3, 3) * s); }
// r must be a nearest point of hull(pts) to q
static void nearest(Case &c, const char *what, const vec3 &q, const std::vector<vec3> &pts, const vec3 &r, ld tol) { ld up, lo = hullDist(q, pts, up), up2; hullDist(r, pts, up2); ld m = extent(q, pts), d = (T(r) - T(q)).norm(); auto msg = [&] { return S(what, " returned ", s3(r), " at distance ", d, ", true distance in [", lo, ",", up, "], distance from primitive ", up2); }; c.check(std::isfinite((double) d) && up2 <= tol * m, S(what, "/not-on-primitive"), msg); c.check(d <= up + tol * m, S(what, "/not-nearest"), msg); }
SUITE(segment, 6000, 400000) {
    Rng &g = c.rng; double s = pow(10, g.uni(-4, 4)); bool l = g.p(.3); auto pt = [&] { return l ? lat(g, s) : rv(g, s); }; vec3 a = pt(), b = pt(), q = pt(); if (g.p(.3)) b = a + (b - a) * pow(10, g.uni(-4, 2)); if (g.p(.3)) q = a + (b - a) * g.uni(-1, 2) + pt() * g.uni(0, .5); if (g.p(.02)) b = a; if ((b - a).length() > 0 && (b - a).length() < 1e-9 * (a.length() + b.length())) b = a; c.d << s3(a) << s3(b) << " query " << s3(q); c.nontrivial(fp({a, b, q})); vec3 r; closestPointOnSegm(q, a, b, r); nearest(c, "closestPointOnSegm", q, {a, b}, r, 1e-12L); r = closestPointOnSegm(q, a, b); nearest(c, "closestPointOnSegm", q, {a, b}, r, 1e-12L); nearest(c, "closestPointOnSegm-origin", vec3(0, 0, 0), {a - q, b - q}, closestPointOnSegm(a - q, b - q), 1e-12L);
    if ((b - a).length() == 0) return; vec3 dir = (b - a) * pow(10, g.uni(-3, 3)) * (g.p(.5) ? 1 : -1); P d = T(b) - T(a), o = T(q) - T(a), pr = T(a) + d * (o.dot(d) / d.dot(d)); ld m = std::max(extent(q, {a, b}), pr.norm()); vec3 r1, r2, r3, r4; closestPointOnLine(q, a, b, r1); r2 = closestPointOnLine(q, a, b); closestPointOnRay(q, a, dir, r3); r4 = closestPointOnRay(q, a, dir); for (auto &x : {r1, r2, r3, r4}) c.check((T(x) - pr).norm() <= 1e-11L * m, "line", [&] { return S("returned ", s3(x), " expected (", pr.x, ",", pr.y, ",", pr.z, ")"); });
}
SUITE(triangle, 6000, 400000) {
    Rng &g = c.rng; double s = pow(10, g.uni(-4, 4)); int k = g.i(0, 4); vec3 a, b, t, q; for (;;) { auto pt = [&] { return k == 0 ? lat(g, s) : rv(g, s); }; a = pt(); b = pt(); t = pt(); q = pt(); if (k == 1) t = a + (b - a) * g.uni(-2, 3) + pt() * pow(10, g.uni(-3, -1)); if (k == 2) q = (a + b + t) * (1. / 3) + pt() * .1; if (k == 3) { double u = g.uni(-1, 2), v = g.uni(-1, 2); q = a + (b - a) * u + (t - a) * v; } double ar = (b - a).cross(t - a).length(), L = std::max((b - a).length(), std::max((t - a).length(), (t - b).length())); if (L > 0 && ar > 1e-4 * L * L) break; } 
    c.d << s3(a) << s3(b) << s3(t) << " query " << s3(q); c.nontrivial(fp({a, b, t, q})); vec3 p[3] = {a, b, t}; int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}}; for (auto &m : perm) { nearest(c, "closestPointOnTriangle", q, {a, b, t}, closestPointOnTriangle(q, p[m[0]], p[m[1]], p[m[2]]), 1e-9L); nearest(c, "closestPointOnTriangle-origin", vec3(0, 0, 0), {a - q, b - q, t - q}, closestPointOnTriangle(p[m[0]] - q, p[m[1]] - q, p[m[2]] - q), 1e-9L); } vec3 r; closestPointOnTriangle(q, a, b, t, r); nearest(c, "closestPointOnTriangle", q, {a, b, t}, r, 1e-9L);
}
SUITE(simplex, 4000, 250000) { // points, segments, triangles and tetrahedra that do not contain the origin
    Rng &g = c.rng; std::vector<vec3> v; int n = g.i(1, 4); for (;;) { v.clear(); vec3 o = rv(g, g.uni(0, 2)); for (int i = 0; i < n; ++i) v.push_back(g.p(.2) ? lat(g, 1) : rv(g, 1) + o); if (n == 2 && (v[1] - v[0]).length() < 1e-3) continue; bool ok = true; for (int i = 0; i < n && n > 2; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) if ((v[i] - v[k]).cross(v[j] - v[k]).length() < 1e-2) ok = false; ld up; if (ok && n == 4) { ok = std::abs((v[1] - v[0]).cross(v[2] - v[0]).dot(v[3] - v[0])) > 1e-2 && hullDist(vec3(0, 0, 0), v, up) > 1e-6L; } if (ok) break; }
    for (auto &p : v) c.d << s3(p); uint64_t h = n; for (auto &p : v) h = hcomb(h, fp({p})); c.nontrivial(h); nearest(c, "closestPointOnSimplex", vec3(0, 0, 0), v, closestPointOnSimplex(v), 1e-9L); nearest(c, "closestPoint", vec3(0, 0, 0), v, closestPoint(v), 1e-9L);
}
SUITE(segments, 6000, 400000) { // distance of two segments: crossing, parallel, overlapping, end to end, degenerate
    Rng &g = c.rng; double s = pow(10, g.uni(-3, 3)); int k = g.i(0, 6); auto pt = [&] { return k == 0 ? lat(g, s) : rv(g, s); }; vec3 a = pt(), b = pt(), p = pt(), q = pt(); if (k == 1) { vec3 d = (b - a) * g.uni(-2, 2); p = a + (b - a) * g.uni(-2, 2) + pt() * (g.p(.3) ? 0 : .3); q = p + d; } if (k == 2) { vec3 m = a + (b - a) * g.u(); vec3 d = pt(); p = m - d * g.u(); q = m + d * g.u(); } if (k == 3) p = b; if (k == 4) { if (g.p(.5)) q = p; if (g.p(.5)) b = a; } if (k == 5) { p = a + (b - a) * g.uni(-1, 2) + pt() * .1; q = p + pt() * .05; }
    c.d << "kind " << k << s3(a) << s3(b) << s3(p) << s3(q); c.nontrivial(fp({a, b, p, q})); std::vector<vec3> d{a - p, a - q, b - p, b - q}; P x; std::vector<P> dd{T(a) - T(p), T(a) - T(q), T(b) - T(p), T(b) - T(q)}; ld lo = minNormLow(dd, &x), up = x.norm(), m = std::max(extent(a, {b}), extent(p, {q})); double t = -7, u = -7; vec3 c1, c2; double r1 = segmentsDistance(a, b, p, q), r2 = segmentsDistance(a, b, p, q, t, u, c1, c2); ld tol = 2e-7L * m; /* near-parallel segments: the parameter is ill conditioned */ auto msg = [&] { return S("returned ", r1, ",", r2, " at t ", t, " u ", u, " true distance in [", lo, ",", up, "]"); };
    c.check(r1 <= up + tol && r1 >= lo - 1e-12L * m, "distance", msg); c.check(std::abs(r2 - r1) <= 1e-12L * m, "overloads-differ", msg); c.check(t >= 0 && t <= 1 && u >= 0 && u <= 1, "parameters-outside", msg); c.check((T(c1) - (T(a) + (T(b) - T(a)) * t)).norm() <= 1e-12L * m && (T(c2) - (T(p) + (T(q) - T(p)) * u)).norm() <= 1e-12L * m, "points", msg); c.check(std::abs((double) (T(c1) - T(c2)).norm() - r2) <= 1e-12L * m, "distance-of-points", msg);
}
SUITE(projection, 3000, 150000) {
    Rng &g = c.rng; double s = pow(10, g.uni(-3, 3)), s2 = pow(10, g.uni(-3, 3)); vec3 a = g.p(.3) ? lat(g, s) : rv(g, s), b = g.p(.3) ? lat(g, s2) : rv(g, s2); if (b.length() == 0) b = vec3(s2, 0, 0); c.d << s3(a) << s3(b); c.nontrivial(fp({a, b})); P A = T(a), B = T(b), e = B * (A.dot(B) / B.dot(B)); vec3 r; vectorProjection(a, b, r); c.check((T(r) - e).norm() <= 1e-13L * A.norm() && (T(vectorProjection(a, b)) - e).norm() <= 1e-13L * A.norm(), "vectorProjection", [&] { return s3(r); });
    vec3 o = rv(g, s), p = rv(g, s); if (g.p(.05)) p.z = o.z; vec2 pr; centerProjectionToXY(o, p, pr); if (o.z == p.z) c.check(pr.x == p.x && pr.y == p.y, "centerProjection-parallel"); else { P d = T(p) - T(o); ld t = -(ld) o.z / d.z, x = o.x + t * d.x, y = o.y + t * d.y, m = T(o).norm() + fabsl(t) * d.norm(); c.check(fabsl(pr.x - x) <= 1e-14L * m * (1 + fabsl(o.z / d.z)) && fabsl(pr.y - y) <= 1e-14L * m * (1 + fabsl(o.z / d.z)), "centerProjection", [&] { return S(s3(o), s3(p), " -> ", pr.x, ",", pr.y, " expected ", x, ",", y); }); }
}
HARNESS_MAIN
