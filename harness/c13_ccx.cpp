// Curve-curve intersection. Built twice: -DCOMPLETE selects the completeness suites (C14), otherwise soundness (C13).
#include "gen.h"
#include "cmmcore/ccx.h"
using namespace G;
typedef std::vector<std::pair<double, double>> Res;
static void shift(NURBSCurve &k, const vec3 &d) { auto P = k.get_control_points(); for (auto &v : P) { v.x += d.x * v.w; v.y += d.y * v.w; v.z += d.z * v.w; } k.set_control_points(P); }
static NURBSCurve tilt(NURBSCurve k, const double M[3][3]) { auto P = k.get_control_points(); for (auto &v : P) { double x = v.x, y = v.y, z = v.z; v.x = M[0][0] * x + M[0][1] * y + M[0][2] * z; v.y = M[1][0] * x + M[1][1] * y + M[1][2] * z; v.z = M[2][0] * x + M[2][1] * y + M[2][2] * z; } k.set_control_points(P); return k; }
static void rotation(Rng &g, double M[3][3]) { double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); double A[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}}, B[3][3] = {{1, 0, 0}, {0, cb, -sb}, {0, sb, cb}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { M[i][j] = 0; for (int k = 0; k < 3; ++k) M[i][j] += A[i][k] * B[k][j]; } }
// a curve that advances along x with bounded wiggle, so that it does not fold onto itself
static NURBSCurve wiggle(Rng &g, bool planar, double L, double amp, int maxDeg = 5, int maxExtra = 6) {
    CurveOpt o; o.maxDeg = maxDeg; o.maxExtra = maxExtra; o.open = .12; auto k = curve(g, o); auto P = k.get_control_points(); int n = (int) P.size(); bool rat = g.p(.4);
    for (int i = 0; i < n; ++i) { double w = rat ? g.uni(.5, 2) : 1; P[i] = vec4((L * i / (n - 1) - L / 2) * w, g.uni(-amp, amp) * w, planar ? 0 : g.uni(-amp, amp) * w, w); }
    k.set_control_points(P); return k;
}
static double pickT(Rng &g, const NURBSCurve &k) { double lo = k.interval()[0], hi = k.interval()[1]; switch (g.i(0, 9)) { case 0: return lo; case 1: return hi; case 2: return lo + .5 * (hi - lo); case 3: return lo + .25 * (hi - lo); case 4: { std::vector<double> in; for (double u : k.knots) if (u > lo && u < hi) in.push_back(u); if (!in.empty()) return g.pick(in); } default: return g.uni(lo, hi); } }
static Res run(Case &c, NURBSCurve &a, NURBSCurve &b, double tol) {
    uint64_t ha = fp(a), hb = fp(b); Res r; cmmcore::ccx(a, b, tol, r); c.check(fp(a) == ha && fp(b) == hb && a.interval()[0] == a.knots[a._degree], "inputs-changed");
    return r;
}
// Every report: inside both domains, and both curves within twice the tolerance there (each box is smaller than the tolerance and they meet).
static void sound(Case &c, const NURBSCurve &a, const NURBSCurve &b, double tol, const Res &r) {
    auto ra = toRef(a), rb = toRef(b);
    for (auto &q : r) {
        if (!c.check(q.first >= a.interval()[0] && q.first <= a.interval()[1] && q.second >= b.interval()[0] && q.second <= b.interval()[1], "outside-domain", [&] { return S("(", q.first, ",", q.second, ")"); })) continue;
        ld d = (R::eval(ra, q.first) - R::eval(rb, q.second)).norm(); c.check(d <= 2.01L * tol + 1e-9L, "not-an-intersection", [&] { return S("(", q.first, ",", q.second, ") curves ", (double) d, " apart, tol ", tol); });
    }
}
static void pairUp(Case &c, NURBSCurve &a, NURBSCurve &b) { describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); }
static bool covered(const NURBSCurve &a, const NURBSCurve &b, const R::Curve &ra, const R::Curve &rb, ld t, ld s, double tol, const Res &r) {
    R::P3 p = R::eval(ra, t), q = R::eval(rb, s);
    for (auto &x : r) { if (fabsl(x.first - t) <= 3 * tol && fabsl(x.second - s) <= 3 * tol) return true; if ((R::eval(ra, x.first) - p).norm() <= 4 * tol && (R::eval(rb, x.second) - q).norm() <= 4 * tol) return true; }
    return false;
}
static std::string list(const Res &r) { std::string s = "reports:"; for (size_t i = 0; i < r.size() && i < 12; ++i) s += S(" (", r[i].first, ",", r[i].second, ")"); return s; }
#ifndef COMPLETE
SUITE(random_pairs, 900, 25000) {
    Rng &g = c.rng; bool planar = g.p(.6); auto a = wiggle(g, planar, g.uni(2, 20), g.uni(.5, 6)), b = wiggle(g, planar, g.uni(2, 20), g.uni(.5, 6)); double M[3][3]; rotation(g, M); if (planar) { double ang = g.uni(.3, 2.8); double Z[3][3] = {{cos(ang), -sin(ang), 0}, {sin(ang), cos(ang), 0}, {0, 0, 1}}; b = tilt(b, Z); } else b = tilt(b, M);
    if (g.p(.4)) { a = tilt(a, M); b = tilt(b, M); } if (g.p(.5)) { auto ra = toRef(a), rb = toRef(b); auto p = R::eval(ra, pickT(g, a)), q = R::eval(rb, pickT(g, b)); shift(b, vec3((double) (p.x - q.x), (double) (p.y - q.y), (double) (p.z - q.z))); }
    double tol = pow(10, -g.uni(1.5, 4)); c.d << "tol=" << tol << " "; pairUp(c, a, b); auto r = run(c, a, b, tol); sound(c, a, b, tol, r); c.check(r.size() < 200000, "report-flood");
}
SUITE(disjoint, 700, 15000) { // near misses and well separated pairs: nothing may be reported when the curves stay apart
    Rng &g = c.rng; double tol = pow(10, -g.uni(1.5, 3.5)); auto a = wiggle(g, true, 10, 2), b = a; double gapv = tol * g.uni(3, 60); int mode = g.i(0, 2);
    if (mode == 0) { b = wiggle(g, true, 10, 2); shift(b, vec3(0, 0, gapv)); } else if (mode == 1) { b = wiggle(g, false, 10, 2); double mn = 1e9; for (auto &v : b.get_control_points3d()) mn = std::min(mn, v.y); double mx = -1e9; for (auto &v : a.get_control_points3d()) mx = std::max(mx, v.y); shift(b, vec3(g.uni(-8, 8), mx - mn + gapv, 0)); }
    else { b = wiggle(g, false, 4, 1); shift(b, vec3(g.uni(-20, 20), g.uni(30, 90), g.uni(-9, 9))); }
    if (g.p(.5)) { double M[3][3]; rotation(g, M); a = tilt(a, M); b = tilt(b, M); } if (g.p(.3)) std::swap(a, b);
    c.d << "tol=" << tol << " gap=" << gapv << " "; pairUp(c, a, b); auto r = run(c, a, b, tol); c.check(r.empty(), "phantom", [&] { return S("curves at least ", gapv, " apart, tol ", tol, "; ", list(r)); });
}
SUITE(touching, 300, 6000) { // tangential contact
    Rng &g = c.rng; double h = g.uni(.5, 4); NURBSCurve a(std::vector<vec4>{{-2, h, 0, 1}, {0, -h, 0, 1}, {2, h, 0, 1}}, 2, std::vector<double>{0, 0, 0, 1, 1, 1}, false); NURBSCurve b(std::vector<vec4>{{-3, 0, 0, 1}, {g.uni(2, 4), 0, 0, 1}}, 1, std::vector<double>{0, 0, 1, 1}, false);
    double tol = pow(10, -g.uni(1.5, 3)); if (g.p(.5)) { double M[3][3]; rotation(g, M); a = tilt(a, M); b = tilt(b, M); } c.d << "tol=" << tol << " "; pairUp(c, a, b); auto r = run(c, a, b, tol); sound(c, a, b, tol, r);
}
#else
SUITE(constructed, 900, 25000) { // c2 is moved so that the curves meet at a chosen parameter pair
    Rng &g = c.rng; bool planar = g.p(.5); auto a = wiggle(g, planar, g.uni(3, 15), g.uni(.5, 4)), b = wiggle(g, planar, g.uni(3, 15), g.uni(.5, 4)); double M[3][3]; rotation(g, M); if (planar) { double ang = g.uni(.4, 2.7); double Z[3][3] = {{cos(ang), -sin(ang), 0}, {sin(ang), cos(ang), 0}, {0, 0, 1}}; b = tilt(b, Z); } else b = tilt(b, M);
    if (planar && g.p(.5)) { vec3 off(0, 0, g.uni(-3, 3)); shift(a, off); shift(b, off); } else if (g.p(.5)) { a = tilt(a, M); b = tilt(b, M); }
    double t = pickT(g, a), s = pickT(g, b); auto ra = toRef(a), rb = toRef(b); auto p = R::eval(ra, t), q = R::eval(rb, s); shift(b, vec3((double) (p.x - q.x), (double) (p.y - q.y), planar && (double) (p.z - q.z) * (double) (p.z - q.z) < 1e-20 ? 0 : (double) (p.z - q.z))); rb = toRef(b);
    double tol = pow(10, -g.uni(1.5, 4)); c.d << "tol=" << tol << " t=" << t << " s=" << s << " "; pairUp(c, a, b); bool sw = g.p(.3); Res r; if (sw) { r = run(c, b, a, tol); for (auto &x : r) std::swap(x.first, x.second); } else r = run(c, a, b, tol);
    c.check(covered(a, b, ra, rb, t, s, tol, r), "missed", [&] { return S("meeting point t=", t, " s=", s, " not reported; ", list(r)); });
}
SUITE(line_crossings, 900, 20000) { // every crossing of a planar curve with a segment, found by dense sampling and bisection
    Rng &g = c.rng; auto a = wiggle(g, true, g.uni(4, 15), g.uni(1, 6), 5, 12); double L = 40; int deg = g.i(1, 3), n = deg + 1 + g.i(0, 3); CurveOpt o; auto U = knots(g, n, deg, g.i(0, 1), 1); double x0 = g.uni(-8, 8), ang = g.uni(-.5, .5), dx = cos(ang), dy = sin(ang); double y0 = g.uni(-1.5, 1.5);
    std::vector<vec4> P; for (int i = 0; i < n; ++i) { double u = -L + 2 * L * i / (n - 1); P.push_back(vec4(x0 + dx * u, y0 + dy * u, 0, 1)); } NURBSCurve b(P, deg, U, false);
    double zc = g.p(.5) ? 0 : g.uni(-4, 4); if (zc != 0) { shift(a, vec3(0, 0, zc)); shift(b, vec3(0, 0, zc)); }
    auto ra = toRef(a), rb = toRef(b); auto f = [&](ld t) { auto p = R::eval(ra, t); return (p.x - x0) * -dy + (p.y - y0) * dx; };
    int N = 400; ld lo = a.interval()[0], hi = a.interval()[1]; std::vector<ld> ts; ld pf = f(lo); for (int i = 1; i <= N; ++i) { ld t1 = lo + (hi - lo) * i / N, t0 = lo + (hi - lo) * (i - 1) / N, q = f(t1); if (pf * q < 0) { for (int k = 0; k < 60; ++k) { ld m = (t0 + t1) / 2, fm = f(m); if (pf * fm <= 0) t1 = m; else t0 = m; } ts.push_back((t0 + t1) / 2); } pf = q; }
    double tol = pow(10, -g.uni(1.5, 4)); c.d << "tol=" << tol << " crossings=" << ts.size() << " "; pairUp(c, a, b); bool sw = g.p(.3); Res r; if (sw) { r = run(c, b, a, tol); for (auto &x : r) std::swap(x.first, x.second); } else r = run(c, a, b, tol);
    for (ld t : ts) { auto p = R::eval(ra, t); ld best = 1e9, s = 0; ld bl = b.interval()[0], bh = b.interval()[1]; // line parameter by bisection on the monotone coordinate
        for (int k = 0; k < 80; ++k) { ld m = (bl + bh) / 2; auto q = R::eval(rb, m); if ((q.x - p.x) * dx + (q.y - p.y) * dy < 0) bl = m; else bh = m; } s = (bl + bh) / 2; (void) best;
        c.check(covered(a, b, ra, rb, t, s, tol, r), "missed", [&] { return S("crossing t=", (double) t, " s=", (double) s, " of ", ts.size(), " not reported; ", list(r)); }); }
    if (ts.empty()) { ld mn = 1e9; for (int i = 0; i <= N; ++i) mn = std::min(mn, fabsl(f(lo + (hi - lo) * i / N))); if (mn > 40 * tol + .1L) c.check(r.empty(), "phantom", [&] { return list(r); }); }
}
SUITE(grid, 400, 8000) { // two polylines / splines with many crossings at the same place in the other curve's order
    Rng &g = c.rng; int k = g.i(2, 6); std::vector<vec4> P; for (int i = 0; i <= k; ++i) P.push_back(vec4(i, (i & 1) ? 1 : -1, 0, 1)); NURBSCurve a(P, 1, knots(g, k + 1, 1, g.i(0, 1), 1), false); double y = g.uni(-.8, .8); NURBSCurve b(std::vector<vec4>{{-1, y, 0, 1}, {k + 1., y, 0, 1}}, 1, std::vector<double>{0, 0, 1, 1}, false);
    double tol = pow(10, -g.uni(2, 4)); c.d << "tol=" << tol << " zigzag " << k << " y=" << y << " "; pairUp(c, a, b); auto r = run(c, a, b, tol); auto ra = toRef(a), rb = toRef(b);
    for (int i = 0; i < k; ++i) { double fr = (i & 1) ? (1 - y) / 2 : (y + 1) / 2; double t = a.knots[1 + i] + fr * (a.knots[2 + i] - a.knots[1 + i]), s = (i + fr + 1) / (k + 2.); c.check(covered(a, b, ra, rb, t, s, tol, r), "missed", [&] { return S("zigzag crossing ", i, " at t=", t, " s=", s, " missing; ", list(r)); }); }
}
SUITE(scales, 300, 6000) { // large geometry over short parameter ranges: a zigzag crossed by a line, every crossing at its place in space
    Rng &g = c.rng; double sc = pow(10, g.uni(0, 3.5)), dom = g.p(.5) ? 1 : pow(10, g.uni(-3, 1)); int k = g.i(2, 6), deg = g.i(1, std::min(2, k)); std::vector<vec4> P; for (int i = 0; i <= k; ++i) P.push_back(vec4(sc * (i + g.uni(-.1, .1)), sc * ((i & 1) ? 1 : -1) * g.uni(1, 2), 0, 1)); auto U = knots(g, k + 1, deg, g.i(0, 1), 1); double u0 = U.front(), len = U.back() - U.front(); for (auto &u : U) u = (u - u0) / len * dom; NURBSCurve a(P, deg, U, false); double y = sc * g.uni(-.3, .3); NURBSCurve b(std::vector<vec4>{{-sc, y, 0, 1}, {(k + 1) * sc, y, 0, 1}}, 1, std::vector<double>{0, 0, dom, dom}, false);
    double tol = sc * pow(10, -g.uni(2, 4)); if (g.p(.5)) { double M[3][3]; rotation(g, M); a = tilt(a, M); b = tilt(b, M); } c.d << "size=" << sc << " domain=" << dom << " tol=" << tol << " "; pairUp(c, a, b); bool sw = g.p(.3); Res r; if (sw) { r = run(c, b, a, tol); for (auto &x : r) std::swap(x.first, x.second); } else r = run(c, a, b, tol);
    auto ra = toRef(a), rb = toRef(b); auto p0 = R::eval(rb, 0), d = R::eval(rb, dom) - p0; ld L = d.norm(); auto e = d * (1 / L); auto off = [&](ld t) { auto p = R::eval(ra, t) - p0; return p; }; auto mid = R::eval(ra, 0) - p0; auto side = mid - e * mid.dot(e); side = side * (1 / side.norm());
    int N = 400; ld pf = off(0).dot(side); for (int i = 1; i <= N; ++i) { ld t0 = (ld) dom * (i - 1) / N, t1 = (ld) dom * i / N, q = off(t1).dot(side); if (pf * q < 0) { for (int z = 0; z < 60; ++z) { ld m = (t0 + t1) / 2; if (pf * off(m).dot(side) <= 0) t1 = m; else t0 = m; } auto p = R::eval(ra, t0); ld s = (p - p0).dot(e) / L * dom; bool ok = false; for (auto &x : r) if ((R::eval(ra, x.first) - p).norm() <= 4 * tol && (R::eval(rb, x.second) - p).norm() <= 4 * tol) ok = true; c.check(ok, "missed", [&] { return S("crossing t=", (double) t0, " s=", (double) s, " of the zigzag not reported; ", list(r)); }); } pf = q; }
}
#endif
HARNESS_MAIN
