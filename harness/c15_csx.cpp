// Curve-surface intersection. -DCOMPLETE: completeness suites (C16); otherwise soundness (C15).
#include "gen.h"
#include "cmmcore/csx.h"
using namespace G;
using cmmcore::CSXIntersections; using cmmcore::CSXType;
struct M3 { double m[3][3]; };
static M3 rotation(Rng &g) { M3 r; double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); double A[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}}, B[3][3] = {{1, 0, 0}, {0, cb, -sb}, {0, sb, cb}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += A[i][k] * B[k][j]; } return r; }
static vec4 mul(const M3 &M, const vec4 &v) { return vec4(M.m[0][0] * v.x + M.m[0][1] * v.y + M.m[0][2] * v.z, M.m[1][0] * v.x + M.m[1][1] * v.y + M.m[1][2] * v.z, M.m[2][0] * v.x + M.m[2][1] * v.y + M.m[2][2] * v.z, v.w); }
static void apply(const M3 &M, NURBSCurve &k) { auto P = k.get_control_points(); for (auto &v : P) v = mul(M, v); k.set_control_points(P); }
static NURBSSurface apply(const M3 &M, const NURBSSurface &s) { auto P = s._control_points; for (auto &r : P) for (auto &v : r) v = mul(M, v); return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }
static void shift(NURBSCurve &k, const R::P3 &d) { auto P = k.get_control_points(); for (auto &v : P) { v.x += (double) d.x * v.w; v.y += (double) d.y * v.w; v.z += (double) d.z * v.w; } k.set_control_points(P); }
// slow and fast parametrisations
static void remap(Rng &g, std::vector<double> &U) { if (!g.p(.2)) return; double len = pow(10, g.uni(-2, 2)), off = g.p(.5) ? 0 : g.uni(-1, 1) * len, a = U.front(), L = U.back() - a; for (auto &u : U) u = off + (u - a) / L * len; }
// height-field surface over a slightly irregular grid; amp 0 = planar
static NURBSSurface sheet(Rng &g, double L, double amp, double irregular, int maxDeg = 3, int maxExtra = 3, bool speeds = true, double open = 0) {
    SurfOpt o; o.open = open; o.maxDeg = maxDeg; o.maxExtra = maxExtra; o.knotKind = g.i(0, 1); auto s = surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size(); bool rat = g.p(.3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double w = rat ? g.uni(.7, 1.4) : 1, hx = L / (n - 1), hy = L / (m - 1); P[i][j] = vec4((-L / 2 + hx * (i + g.uni(-irregular, irregular))) * w, (-L / 2 + hy * (j + g.uni(-irregular, irregular))) * w, amp == 0 ? 0 : g.uni(-amp, amp) * w, w); }
    auto U = s._knots_u, V = s._knots_v; if (speeds) { remap(g, U); remap(g, V); } return NURBSSurface(P, s._degree, U, V);
}
// mostly vertical curve from z=-h to z=h
static NURBSCurve stick(Rng &g, double h, double side, int maxDeg = 4, int maxExtra = 3) {
    CurveOpt o; o.maxDeg = maxDeg; o.maxExtra = maxExtra; o.knotKind = g.i(0, 1); o.open = .12; auto k = curve(g, o); auto P = k.get_control_points(); int n = (int) P.size(); bool rat = g.p(.3);
    for (int i = 0; i < n; ++i) { double w = rat ? g.uni(.7, 1.4) : 1; P[i] = vec4(g.uni(-side, side) * w, g.uni(-side, side) * w, (-h + 2 * h * i / (n - 1)) * w, w); } auto U = k.knots; remap(g, U); return NURBSCurve(P, k._degree, U, false);
}
static double pickT(Rng &g, const std::vector<double> &U, double lo, double hi) { switch (g.i(0, 9)) { case 0: return lo + .5 * (hi - lo); case 1: return lo + .25 * (hi - lo); case 2: { std::vector<double> in; for (double u : U) if (u > lo && u < hi) in.push_back(u); if (!in.empty()) return g.pick(in); } default: return g.uni(lo + .03 * (hi - lo), hi - .03 * (hi - lo)); } }
static void sound(Case &c, const NURBSCurve &k, const NURBSSurface &s, double tol, const CSXIntersections &r) {
    auto rk = toRef(k); auto rs = toRef(s);
    for (auto &x : r) {
        auto &pr = std::get<2>(x); vec3 pt = std::get<1>(x);
        if (!c.check(pr[0] >= k.interval()[0] && pr[0] <= k.interval()[1] && pr[1] >= s._interval[0][0] && pr[1] <= s._interval[0][1] && pr[2] >= s._interval[1][0] && pr[2] <= s._interval[1][1], "outside-domain", [&] { return S("params ", pr[0], ",", pr[1], ",", pr[2]); })) continue;
        auto a = R::eval(rk, pr[0]), b = R::eval(rs, pr[1], pr[2]); c.check((a - b).norm() <= tol * 1.0001L + 1e-9L, "not-an-intersection", [&] { return S("curve ", str(a), " surface ", str(b), " tol ", tol); });
        c.check(gap(pt, a) <= 1e-8L * (1 + scaleOf(rk)), "point", [&] { return S("reported ", str(pt), " curve ", str(a)); });
        auto T = R::d1(rk, pr[0]), N = R::dU(rs, pr[1], pr[2]).cross(R::dV(rs, pr[1], pr[2])); ld tn = fabsl(T.dot(N)); bool nearKnotLine = false; for (double u : k.knots) if (fabsl(u - pr[0]) < 1e-9) nearKnotLine = true; for (double u : s._knots_u) if (fabsl(u - pr[1]) < 1e-9) nearKnotLine = true; for (double u : s._knots_v) if (fabsl(u - pr[2]) < 1e-9) nearKnotLine = true;
        if (!nearKnotLine && N.norm() > 1e-3L) { ld un = tn / N.norm(); bool deg = std::get<0>(x) == CSXType::DEGENERATE; ld lo = std::min(un, tn), hi = std::max(un, tn); // the normal may or may not be normalised
            if (hi < .2L * tol) c.check(deg, "label", [&] { return S("tangential contact labelled transversal, T.N=", (double) un); }); if (lo > 5 * tol) c.check(!deg, "label", [&] { return S("transversal crossing labelled degenerate, T.N=", (double) un); }); }
    }
}
static std::string list(const CSXIntersections &r) { std::string s = S(r.size(), " reports:"); for (size_t i = 0; i < r.size() && i < 8; ++i) s += S(" t=", std::get<2>(r[i])[0], str(std::get<1>(r[i]))); return s; }
static CSXIntersections run(Case &c, const NURBSCurve &k, const NURBSSurface &s, double tol) { uint64_t a = fp(k), b = fp(s); CSXIntersections r; if (c.rng.p(.5)) cmmcore::csx(k, s, r, tol); else r = cmmcore::csx(k, s, tol); c.check(fp(k) == a && fp(s) == b, "inputs-changed"); return r; }
static void grow(NURBSCurve &k, double f) { auto P = k.get_control_points(); for (auto &v : P) { v.x *= f; v.y *= f; v.z *= f; } k.set_control_points(P); }
static NURBSSurface grow(const NURBSSurface &s, double f) { auto P = s._control_points; for (auto &r : P) for (auto &v : r) { v.x *= f; v.y *= f; v.z *= f; } return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }
// the same configuration elsewhere, and sometimes in other units (the tolerance is in the same units)
static void put(Case &c, NURBSCurve &k, NURBSSurface &s, double &tol, double smallest = -2) { if (c.rng.p(.3)) { double f = pow(10, c.rng.uni(smallest, 3.5)); grow(k, f); s = grow(s, f); tol *= f; } if (c.rng.p(.5)) { auto M = rotation(c.rng); apply(M, k); s = apply(M, s); } c.d << "tol=" << tol << " "; describe(c, k); describe(c, s); c.nontrivial(hcomb(fp(k), fp(s))); }
#ifndef COMPLETE
SUITE(crossing, 500, 12000) {
    Rng &g = c.rng; auto s = sheet(g, g.uni(4, 12), g.uni(0, 1.5), .3, 3, 3, true, .12); auto k = stick(g, g.uni(2, 6), g.uni(0, 1.5)); shift(k, R::P3{(ld) g.uni(-2, 2), (ld) g.uni(-2, 2), (ld) g.uni(-1, 1)}); double tol = pow(10, -g.uni(2, 4)); put(c, k, s, tol); auto r = run(c, k, s, tol); sound(c, k, s, tol, r);
}
SUITE(oblique, 200, 4000) {
    Rng &g = c.rng; auto s = sheet(g, 8, g.uni(.3, 1), .2, 3, 1); double a = g.uni(.2, .7), L = 6; NURBSCurve k(std::vector<vec4>{{-L, g.uni(-2, 2), -L * tan(a), 1}, {L, g.uni(-2, 2), L * tan(a), 1}}, 1, std::vector<double>{0, 0, 1, 1}, false); double tol = pow(10, -g.uni(2, 3)); put(c, k, s, tol); auto r = run(c, k, s, tol); sound(c, k, s, tol, r);
}
SUITE(disjoint, 400, 8000) {
    Rng &g = c.rng; double amp = g.uni(0, 1); auto s = sheet(g, g.uni(4, 12), amp, .3, 3, 3, true, .12); auto k = stick(g, g.uni(.3, 4), g.uni(0, 3)); double mn = 1e9; for (auto &v : k.get_control_points3d()) mn = std::min(mn, v.z); double tol = pow(10, -g.uni(2, 4)), gp = g.p(.5) ? tol * g.uni(3, 20) : g.uni(.2, 5); shift(k, R::P3{(ld) g.uni(-3, 3), (ld) g.uni(-3, 3), (ld) (amp - mn + gp)}); c.d << "gap=" << gp << " "; put(c, k, s, tol); auto r = run(c, k, s, tol); c.check(r.empty(), "phantom", [&] { return S("gap ", gp, " tol ", tol, "; ", list(r)); });
}
SUITE(tangent, 60, 600) { // parabola touching a plane in one point
    Rng &g = c.rng; double h = g.uni(1, 4), L = 8; NURBSSurface s(std::vector<std::vector<vec4>>{{{-L, -L, 0, 1}, {-L, L, 0, 1}}, {{L, -L, 0, 1}, {L, L, 0, 1}}}, {1, 1}, {0, 0, 1, 1}, {0, 0, 1, 1}); double x = g.uni(-2, 2); NURBSCurve k(std::vector<vec4>{{x - 2, g.uni(-1, 1), h, 1}, {x, 0, -h, 1}, {x + 2, g.uni(-1, 1), h, 1}}, 2, std::vector<double>{0, 0, 0, 1, 1, 1}, false); double tol = 1e-2; put(c, k, s, tol); auto r = run(c, k, s, tol); sound(c, k, s, tol, r);
}
#else
static bool found(const CSXIntersections &r, const R::P3 &p, double tol) { for (auto &x : r) if (gap(std::get<1>(x), p) <= tol) return true; return false; }
SUITE(constructed, 700, 15000) { // the curve is moved so that it crosses the surface at a chosen parameter triple
    Rng &g = c.rng; auto s = sheet(g, g.uni(4, 12), g.p(.3) ? 0 : g.uni(.1, .6), .2, 3, 3, true, .15); auto k = stick(g, g.uni(2, 6), g.uni(0, .8)); auto rs = toRef(s); auto rk = toRef(k); double t = pickT(g, k.knots, k.interval()[0], k.interval()[1]), u = pickT(g, s._knots_u, s._interval[0][0], s._interval[0][1]), v = pickT(g, s._knots_v, s._interval[1][0], s._interval[1][1]);
    shift(k, R::eval(rs, u, v) - R::eval(rk, t)); double tol = pow(10, -g.uni(2, 4)); c.d << "t=" << t << " u=" << u << " v=" << v << " "; put(c, k, s, tol); rk = toRef(k); rs = toRef(s); auto p = R::eval(rk, t);
    auto T = R::d1(rk, t), N = R::dU(rs, u, v).cross(R::dV(rs, u, v)); if (fabsl(T.dot(N)) < .5L * T.norm() * N.norm()) return;
    auto r = run(c, k, s, tol); c.check(found(r, p, 4 * tol), "missed", [&] { return S("crossing ", str(p), " at t=", t, " u=", u, " v=", v, " tol ", tol, "; ", list(r)); });
}
SUITE(many, 300, 6000) { // planar patch, curve weaving through it: every transversal crossing
    Rng &g = c.rng; double L = 20; auto s = sheet(g, L, 0, .2, 3, 2); int n = g.i(2, 6); std::vector<vec4> P; for (int i = 0; i <= n; ++i) P.push_back(vec4(-6 + 12. * i / n + g.uni(-.3, .3), g.uni(-3, 3), ((i & 1) ? 1 : -1) * g.uni(2, 5), 1)); int deg = g.i(1, std::min(3, n)); NURBSCurve k(P, deg, knots(g, n + 1, deg, g.i(0, 1), 1), false); double tol = pow(10, -g.uni(2, 4)); auto rk = toRef(k);
    std::vector<ld> ts; ld lo = k.interval()[0], hi = k.interval()[1]; int N = 600; ld pf = R::eval(rk, lo).z; for (int i = 1; i <= N; ++i) { ld t1 = lo + (hi - lo) * i / N, t0 = lo + (hi - lo) * (i - 1) / N, q = R::eval(rk, t1).z; if (pf * q < 0) { for (int z = 0; z < 60; ++z) { ld m = (t0 + t1) / 2; if (pf * R::eval(rk, m).z <= 0) t1 = m; else t0 = m; } ts.push_back((t0 + t1) / 2); } pf = q; }
    put(c, k, s, tol); rk = toRef(k); c.d << ts.size() << " crossings"; auto r = run(c, k, s, tol); auto rs = toRef(s); auto N0 = R::dU(rs, (s._interval[0][0] + s._interval[0][1]) / 2, (s._interval[1][0] + s._interval[1][1]) / 2).cross(R::dV(rs, (s._interval[0][0] + s._interval[0][1]) / 2, (s._interval[1][0] + s._interval[1][1]) / 2));
    for (ld t : ts) { auto T = R::d1(rk, t); if (fabsl(T.dot(N0)) < .4L * T.norm() * N0.norm()) continue; auto p = R::eval(rk, t); c.check(found(r, p, 4 * tol), "missed", [&] { return S("crossing t=", (double) t, " ", str(p), " tol ", tol, " of ", ts.size(), "; ", list(r)); }); }
}
SUITE(scales, 300, 6000) { // a short curve weaving through a large patch, or a long curve through a small patch
    Rng &g = c.rng; bool tiny = g.p(.5); double tol = pow(10, -g.uni(2, 4)), L = tiny ? g.uni(5, 40) : tol * g.uni(60, 600); auto s = sheet(g, L, 0, .2, 3, 2, false); double step = tiny ? std::min(.03 * L, tol * g.uni(20, 120)) : L * g.uni(.05, .12), high = tiny ? step * g.uni(1, 3) : L * g.uni(.3, 3); int n = g.i(1, 5); double x0 = tiny ? g.uni(-.2, .2) * L : 0, y0 = tiny ? g.uni(-.2, .2) * L : 0; std::vector<vec4> P;
    for (int i = 0; i <= n; ++i) P.push_back(vec4(x0 + step * (i - n / 2. + g.uni(-.1, .1)), y0 + step * g.uni(-.5, .5), ((i & 1) ? 1 : -1) * high * g.uni(.6, 1.4), 1)); int deg = g.i(1, std::min(2, n)); NURBSCurve k(P, deg, knots(g, n + 1, deg, g.i(0, 1), 1), false); auto rk = toRef(k);
    std::vector<ld> ts; ld lo = k.interval()[0], hi = k.interval()[1]; int N = 600; ld pf = R::eval(rk, lo).z; for (int i = 1; i <= N; ++i) { ld t1 = lo + (hi - lo) * i / N, t0 = lo + (hi - lo) * (i - 1) / N, q = R::eval(rk, t1).z; if (pf * q < 0) { for (int z = 0; z < 60; ++z) { ld m = (t0 + t1) / 2; if (pf * R::eval(rk, m).z <= 0) t1 = m; else t0 = m; } ts.push_back((t0 + t1) / 2); } pf = q; }
    c.d << (tiny ? "short curve " : "small patch ") << "L=" << L << " step=" << step << " "; put(c, k, s, tol, 0); rk = toRef(k); c.d << ts.size() << " crossings"; auto r = run(c, k, s, tol); auto rs = toRef(s); auto N0 = R::dU(rs, (s._interval[0][0] + s._interval[0][1]) / 2, (s._interval[1][0] + s._interval[1][1]) / 2).cross(R::dV(rs, (s._interval[0][0] + s._interval[0][1]) / 2, (s._interval[1][0] + s._interval[1][1]) / 2));
    for (size_t i = 0; i < ts.size(); ++i) { auto T = R::d1(rk, ts[i]); if (fabsl(T.dot(N0)) < .4L * T.norm() * N0.norm()) continue; auto p = R::eval(rk, ts[i]); bool close = false; for (size_t j = 0; j < ts.size(); ++j) if (j != i && (R::eval(rk, ts[j]) - p).norm() < 10 * tol) close = true; if (!close) c.check(found(r, p, 4 * tol), "missed", [&] { return S("crossing t=", (double) ts[i], " ", str(p), " tol ", tol, " of ", ts.size(), "; ", list(r)); }); }
}
SUITE(loop, 150, 3000) { // a curve that passes twice through one point of the surface: both passes are crossings
    Rng &g = c.rng; auto s = sheet(g, g.uni(6, 14), g.p(.3) ? 0 : g.uni(.05, .4), .2, 3, 3, true, .15); double a = g.uni(.6, 1.5), b = a * g.uni(1.6, 2.6), h = g.uni(1.5, 3), sh = g.uni(-.3, .3), turn = g.uni(0, 6.28), f = g.uni(.5, 1.5); bool rat = g.p(.3);
    auto P = [&](double x, double y, double w) { x += sh * y; return vec4(f * x * cos(turn) * w, f * x * sin(turn) * w, f * y * w, w); }; double w1 = rat ? g.uni(.7, 1.4) : 1; NURBSCurve k(std::vector<vec4>{P(-a, 0, 1), P(b, h, w1), P(-b, h, w1), P(a, 0, 1)}, 3, std::vector<double>{0, 0, 0, 0, 1, 1, 1, 1}, false);
    if (g.p(.5)) for (int i = g.i(1, 3); i > 0; --i) k.insert_knot(g.uni(.05, .95), 1); { auto U = k.knots; remap(g, U); k = NURBSCurve(k.control_points, 3, U, false); } auto rk = toRef(k); ld L = rk.hi() - rk.lo();
    // by symmetry the node is where the points of t and of 1-t coincide
    auto d = [&](ld q) { return (R::eval(rk, rk.lo() + q * L) - R::eval(rk, rk.hi() - q * L)); }; ld l = 0, r = .5L - 1e-3L; auto dir = d(0); if (d(0).dot(dir) * d(r).dot(dir) >= 0) return; for (int i = 0; i < 80; ++i) { ld m = (l + r) / 2; if (d(m).dot(dir) > 0) l = m; else r = m; } ld t0 = rk.lo() + l * L, t1 = rk.hi() - l * L; if (t1 - t0 < .15L * L || l < .02L) return;
    auto rs = toRef(s); double u = pickT(g, s._knots_u, s._interval[0][0], s._interval[0][1]), v = pickT(g, s._knots_v, s._interval[1][0], s._interval[1][1]); shift(k, R::eval(rs, u, v) - R::eval(rk, t0)); double tol = pow(10, -g.uni(2, 4)); c.d << "node t=" << (double) t0 << "," << (double) t1 << " "; put(c, k, s, tol); rk = toRef(k); rs = toRef(s); auto p = R::eval(rk, t0), N = R::dU(rs, u, v).cross(R::dV(rs, u, v)); if ((R::eval(rk, t1) - p).norm() > .01L * tol) return;
    for (ld t : {t0, t1}) { auto T = R::d1(rk, t); if (fabsl(T.dot(N)) < .5L * T.norm() * N.norm()) return; }
    auto q = run(c, k, s, tol); for (ld t : {t0, t1}) { bool ok = false; for (auto &x : q) if (gap(std::get<1>(x), p) <= 4 * tol && fabsl(std::get<2>(x)[0] - t) < .3L * (t1 - t0)) ok = true; c.check(ok, "missed", [&] { return S("pass at t=", (double) t, " of two through ", str(p), " tol ", tol, "; ", list(q)); }); }
}
#endif
HARNESS_MAIN
