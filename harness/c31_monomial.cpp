// Monomial form of Bezier patches against the reference patch: conversion, derivatives, cross product, normal, object reuse.
#include "gen.h"
#include "cmmcore/monomial.h"
using namespace H; using namespace cmmcore;
static NURBSSurface patch(Rng &g, int maxDeg) { G::SurfOpt o; o.maxDeg = maxDeg; o.high = 0; o.maxExtra = 0; o.rational = 0; o.knotKind = 0; return G::surface(g, o); }
static R::P3 mono(const Tensor2D<vec3> &a, ld u, ld v) { R::P3 r; ld pu = 1; for (auto &row : a) { ld pv = pu; for (auto &x : row) { r = r + G::p3(x) * pv; pv *= v; } pu *= u; } return r; }
static ld mag(const Tensor2D<vec3> &a) { ld m = 0; for (auto &r : a) for (auto &x : r) m += G::p3(x).norm(); return m; }
static void junk(Rng &g, Monomial2D &m) { int n = g.i(1, 9), k = g.i(1, 9); Tensor2D<vec3> t(n, std::vector<vec3>(k)); for (auto &r : t) for (auto &x : r) x = vec3(g.gauss() * 50, 7, g.gauss()); m.set(t); }
static void junk(Rng &g, NURBSSurface &s) { G::SurfOpt o; o.maxExtra = 5; s = G::surface(g, o); }
static bool same(const Tensor2D<vec3> &a, const Tensor2D<vec3> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) if (a[i][j].x != b[i][j].x || a[i][j].y != b[i][j].y || a[i][j].z != b[i][j].z) return false; } return true; }
// the Bezier surface s must have the control points of ref (weights 1, clamped [0,1] knots)
static void sameBezier(Case &c, const char *key, const NURBSSurface &s, const NURBSSurface &ref, ld tol) { bool ok = s._control_points.size() == ref._control_points.size() && s._degree == ref._degree && s._size == ref._size; ld worst = 0; if (ok) for (size_t i = 0; ok && i < ref._control_points.size(); ++i) { ok = s._control_points[i].size() == ref._control_points[i].size(); for (size_t j = 0; ok && j < ref._control_points[i].size(); ++j) { auto &a = s._control_points[i][j], &b = ref._control_points[i][j]; worst = std::max(worst, std::max(std::max(fabsl(a.x - b.x), fabsl(a.y - b.y)), fabsl(a.z - b.z))); if (a.w != 1 || !(worst <= tol)) ok = false; } } c.check(ok, key, [&] { return S("size ", s._size[0], "x", s._size[1], " rows ", s._control_points.size(), " degree ", s._degree[0], ",", s._degree[1], " deviation ", (double) worst, " tolerance ", (double) tol); }); }
SUITE(round_trip, 2500, 120000) {
    Rng &g = c.rng; auto s = patch(g, g.p(.2) ? 8 : 6); G::describe(c, s); c.nontrivial(G::fp(s)); auto ref = G::toRef(s); ld sc = G::scaleOf(ref); Monomial2D m(s), m2; if (g.p(.7)) junk(g, m2); m2 = m; Monomial2D m3(m), m4(m.coefficients), m5(m.n, m.m, m.coefficients), m6; if (g.p(.5)) junk(g, m6); auto cf = m.coefficients; m6.set(cf); c.check(m.n == s._size[0] && m.m == s._size[1] && (int) m.coefficients.size() == m.n && (int) m.coefficients[0].size() == m.m, "shape"); ld tol = 1e-15L * mag(m.coefficients) * 8 + 1e-14L * sc * pow(3, s._degree[0] + s._degree[1]);
    for (int k = 0; k < 10; ++k) { double u = k == 0 ? 0 : k == 1 ? 1 : g.u(), v = k == 0 ? g.u() : k == 1 ? 1 : g.u(); ld du = (ld) u * (s._interval[0][1] - s._interval[0][0]) + s._interval[0][0], dv = (ld) v * (s._interval[1][1] - s._interval[1][0]) + s._interval[1][0]; auto e = R::eval(ref, du, dv), r = mono(m.coefficients, u, v); c.check((r - e).norm() <= tol, "value", [&] { return S("at ", u, ",", v, " ", G::str(r), " expected ", G::str(e), " tol ", (double) tol); }); }
    Monomial2D *all[6] = {&m, &m2, &m3, &m4, &m5, &m6}; const char *nm[6] = {"from-surface", "assigned", "copied", "from-coefficients", "from-sizes", "set"}; ld btol = 1e-15L * powl(5, s._degree[0] + s._degree[1]) * sc + 1e-13L * sc; for (int k = 0; k < 6; ++k) { c.check(same(all[k]->coefficients, m.coefficients) && all[k]->n == m.n && all[k]->m == m.m, S("coefficients/", nm[k]).c_str()); NURBSSurface out; if (g.p(.6)) junk(g, out); all[k]->to_bezier(out); sameBezier(c, S("control-points/", nm[k]).c_str(), out, s, btol); auto ro = G::toRef(out); c.check((int) out._knots_u.size() == out._size[0] + out._degree[0] + 1 && (int) out._knots_v.size() == out._size[1] + out._degree[1] + 1, "knot-count"); if (out._knots_u.size() && k < 2) for (int t = 0; t < 3; ++t) { double a = g.u(), b = g.u(); auto e = R::eval(ref, s._interval[0][0] + (ld) a * (s._interval[0][1] - s._interval[0][0]), s._interval[1][0] + (ld) b * (s._interval[1][1] - s._interval[1][0])); vec3 r; out.evaluate(out._interval[0][0] + a * (out._interval[0][1] - out._interval[0][0]), out._interval[1][0] + b * (out._interval[1][1] - out._interval[1][0]), r); c.check(G::gap(r, e) <= btol * 4 + 1e-12L * sc, "surface-value", [&] { return S("at ", a, ",", b, " ", G::str(r), " expected ", G::str(e)); }); } }
    Monomial2D z(g.i(1, 5), g.i(1, 5)); bool zero = (int) z.coefficients.size() == z.n; for (auto &r : z.coefficients) { zero = zero && (int) r.size() == z.m; for (auto &x : r) zero = zero && x.x == 0 && x.y == 0 && x.z == 0; } c.check(zero, "sized-constructor"); { Monomial2D y(m.n, m.m); y.coefficients = m.coefficients; NURBSSurface out; y.to_bezier(out); sameBezier(c, "control-points/sized", out, s, btol); } Monomial2D self(m); Monomial2D &al = self; self = al; c.check(same(self.coefficients, m.coefficients), "self-assignment");
}
SUITE(derivatives, 2500, 120000) {
    Rng &g = c.rng; auto s = patch(g, g.p(.2) ? 8 : 6); G::describe(c, s); c.nontrivial(G::fp(s)); Monomial2D m(s), du, dv, nn; if (g.p(.6)) { junk(g, du); junk(g, dv); junk(g, nn); } auto ref = G::toRef(s); ld sc = G::scaleOf(ref), mm = mag(m.coefficients), L0 = s._interval[0][1] - s._interval[0][0], L1 = s._interval[1][1] - s._interval[1][0]; m.computePartialDerivative(SurfaceParameter::U, du); m.computePartialDerivative(SurfaceParameter::V, dv); m.computeNormal(nn); int p = s._degree[0], q = s._degree[1]; ld tol = 1e-14L * mm * 8 * (p + q) + 1e-14L * sc * pow(3, p + q); Tensor2D<vec3> cr, tu, tv; if (g.p(.5)) { cr.assign(g.i(1, 6), std::vector<vec3>(g.i(1, 6), vec3(9, 9, 9))); tu = cr; tv = cr; } cross(du.coefficients, dv.coefficients, cr); compute_partial_derivative(m.coefficients, SurfaceParameter::U, tu); compute_partial_derivative(m.coefficients, SurfaceParameter::V, tv); c.check(same(tu, du.coefficients) && same(tv, dv.coefficients), "free-function-differs"); c.check(same(cr, nn.coefficients), "cross-differs-from-normal"); c.check(nn.n == (int) nn.coefficients.size() && nn.m == (int) nn.coefficients[0].size() && nn.n == 2 * p && nn.m == 2 * q, "normal-shape");
    NURBSSurface ns; nn.to_bezier(ns);
    for (int k = 0; k < 8; ++k) { double u = k == 0 ? 0 : k == 1 ? 1 : g.u(), v = k == 0 ? 1 : k == 1 ? g.u() : g.u(); ld x = s._interval[0][0] + u * L0, y = s._interval[1][0] + v * L1; auto eu = R::dU(ref, x, y) * L0, ev = R::dV(ref, x, y) * L1, en = eu.cross(ev); auto ru = mono(du.coefficients, u, v), rv = mono(dv.coefficients, u, v), rn = mono(nn.coefficients, u, v); auto at = [&] { return S("at ", u, ",", v, " "); }; c.check((ru - eu).norm() <= tol, "u-derivative", [&] { return S(at(), G::str(ru), " expected ", G::str(eu)); }); c.check((rv - ev).norm() <= tol, "v-derivative", [&] { return S(at(), G::str(rv), " expected ", G::str(ev)); }); ld nt = 1e-14L * mag(du.coefficients) * mag(dv.coefficients) * 20 + tol * (mag(du.coefficients) + mag(dv.coefficients)); c.check((rn - en).norm() <= nt, "normal", [&] { return S(at(), G::str(rn), " expected ", G::str(en), " tol ", (double) nt); }); if (p <= 4 && q <= 4) { vec3 r; ns.evaluate(ns._interval[0][0] + u * (ns._interval[0][1] - ns._interval[0][0]), ns._interval[1][0] + v * (ns._interval[1][1] - ns._interval[1][0]), r); c.check(G::gap(r, en) <= nt * 50 * powl(2, p + q), "normal-patch", [&] { return S(at(), G::str(r), " expected ", G::str(en)); }); } }
    // derivatives down to the zero polynomial
    Monomial2D a = m, b; for (int k = 0; k <= p + 1; ++k) { a.computePartialDerivative(SurfaceParameter::U, b); a = b; } c.check(mag(a.coefficients) == 0 && a.coefficients.size() >= 1, "derivative-of-constant", [&] { return S("rows ", a.coefficients.size()); });
}
SUITE(basis, 60, 200) { Rng &g = c.rng; int n = g.i(0, 12); c.d << n; c.nontrivial(n); auto M = bpmat(n); auto I = M.inverse(); for (int k = 0; k < 5; ++k) { ld u = g.u(); for (int j = 0; j <= n; ++j) { ld b = 1; for (int t = 0; t < j; ++t) b = b * (n - t) / (t + 1); b *= powl(u, j) * powl(1 - u, n - j); ld r = 0, ma = 0; for (int i = 0; i <= n; ++i) { r += M(i, j) * powl(u, i); ma += fabsl(M(i, j)); } c.check(fabsl(r - b) <= 1e-15L * ma, "bernstein", [&] { return S("degree ", n, " basis ", j, " at ", (double) u, " ", (double) r, " expected ", (double) b); }); } } auto P = M * I; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) c.check(std::abs(P(i, j) - (i == j)) <= 1e-14 * pow(4, n), "inverse"); }
HARNESS_MAIN
