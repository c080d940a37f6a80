// Arc length: accuracy against Gauss-Legendre on the reference speed, additivity, bounds, inverse.
#include "gen.h"
using namespace G;
static const ld GX[5] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L};
static const ld GW[5] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
static ld gl(const R::Curve &r, ld a, ld b) { ld s = 0; for (int i = 0; i < 5; ++i) { s += GW[i] * (R::d1(r, (a + b) / 2 + (b - a) / 2 * GX[i]).norm() + R::d1(r, (a + b) / 2 - (b - a) / 2 * GX[i]).norm()); } return s * (b - a) / 2; }
static ld panel(const R::Curve &r, ld a, ld b, int depth) { ld w = gl(r, a, b), h = gl(r, a, (a + b) / 2) + gl(r, (a + b) / 2, b); if (depth > 9 || fabsl(w - h) < 1e-11L * (1 + h)) return h; return panel(r, a, (a + b) / 2, depth + 1) + panel(r, (a + b) / 2, b, depth + 1); }
static ld refLen(const R::Curve &r, ld a, ld b) { std::vector<ld> br{a}; for (double u : r.U) if (u > br.back() && u < b) br.push_back(u); br.push_back(b); ld s = 0; for (size_t i = 0; i + 1 < br.size(); ++i) s += panel(r, br[i], br[i + 1], 0); return s; }
// curves whose speed is smooth and bounded away from zero: monotone-ish control polygons
static NURBSCurve regular(Rng &g, bool smoothKnots) { CurveOpt o; o.minDeg = 1; o.maxDeg = 5; o.maxExtra = 5; o.maxMultMinus = 1; o.knotKind = smoothKnots ? (g.p(.5) ? 0 : 1) : -1; auto k = curve(g, o); double dx = g.uni(.5, 3); bool rat = g.p(.3);
    for (size_t i = 0; i < k.control_points.size(); ++i) { double w = rat ? g.uni(.6, 1.6) : 1; k.control_points[i] = vec4(dx * i * w, g.uni(-1, 1) * dx * w, g.uni(-1, 1) * dx * w, w); } k.rebuildAABB(); return k; }
static ld polyLen(const NURBSCurve &k) { ld s = 0; auto P = k.get_control_points3d(); for (size_t i = 1; i < P.size(); ++i) s += gap(P[i], P[i - 1]); return s; }
// Simpson can be fooled by speed kinks; the tolerance is the documented error estimate times the number of panels allowed.
static const ld BASE = 1e-3L;
// A Richardson estimate can vanish by accident, so per curve a share of the intervals may exceed the soft bound; all stay within the hard one.
SUITE(accuracy, 700, 20000) {
    Rng &g = c.rng; auto k = regular(g, true); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); double lo = k.interval()[0], hi = k.interval()[1]; int spans = (int) k.control_points.size(), N = 12, bad = 0, badFine = 0; std::string w, wf; ld full = refLen(r, lo, hi);
    for (int it = 0; it < N; ++it) {
        double a = it == 0 || g.p(.2) ? lo : g.uni(lo, hi), b = it == 0 || g.p(.2) ? hi : g.uni(lo, hi); if (a > b) std::swap(a, b); ld e = refLen(r, a, b);
        double got = it == 0 ? k.length() : a == lo && g.p(.5) ? k.length(b) : k.length(a, b, CMMCORE_NURBS_INTEGRATION_TOL); ld err = fabsl(got - e);
        if (!(err <= 2 * BASE * spans + 1e-4L * e)) { ++bad; w = S("length(", a, ",", b, ")=", got, " exact ", (double) e); }
        c.check(std::isfinite(got) && err <= 2 * BASE * spans + .04L * full, "hard", [&] { return S("length(", a, ",", b, ")=", got, " exact ", (double) e); });
        double tol = pow(10, -g.i(5, 8)), fine = k.length(a, b, tol); err = fabsl(fine - e);
        if (!(err <= 30 * tol + 1e-7L * e)) { ++badFine; wf = S("length(", a, ",", b, ",", tol, ")=", fine, " exact ", (double) e); }
        c.check(std::isfinite(fine) && err <= 30 * tol + .04L * full, "hard-tolerance", [&] { return S("length(", a, ",", b, ",", tol, ")=", fine, " exact ", (double) e); });
    }
    c.check(bad <= 2 * N / 3, "default-tolerance", [&] { return S(bad, " of ", N, " intervals miss; ", w); }); c.check(badFine <= 2 * N / 3, "tolerance", [&] { return S(badFine, " of ", N, " intervals miss; ", wf); });
}
SUITE(bounds, 1200, 30000) {
    Rng &g = c.rng; auto k = regular(g, true); describe(c, k); c.nontrivial(fp(k)); double lo = k.interval()[0], hi = k.interval()[1]; double tol = 1e-6, full = k.length(lo, hi, tol); vec3 s, e; k.evaluate(lo, s); k.evaluate(hi, e); ld slack = 2e-3L * (1 + full);
    c.check(full >= gap(s, e) - slack, "below-chord", [&] { return S(full, " chord ", (double) gap(s, e)); }); c.check(full <= polyLen(k) + slack, "above-polygon", [&] { return S(full, " polygon ", (double) polyLen(k)); });
    double m = g.uni(lo, hi); c.check(std::fabs(k.length(lo, m, tol) + k.length(m, hi, tol) - full) <= 4 * slack, "additive", [&] { return S("at ", m); });
    { double a = g.uni(lo, hi), b = g.uni(lo, hi), x = k.length(a, b, tol), y = k.length(b, a, tol), z = k.length(a, a, tol); c.check(std::fabs(x + y) <= 2 * slack && (a < b ? x : y) >= 0 && z == 0, "reversed", [&] { return S("length(", a, ",", b, ")=", x, " length(", b, ",", a, ")=", y, " length(a,a)=", z); }); double q[3] = {g.uni(lo, hi), g.uni(lo, hi), g.uni(lo, hi)}; ld sum = k.length(q[0], q[1], tol) + k.length(q[1], q[2], tol) + k.length(q[2], q[0], tol); c.check(fabsl(sum) <= 6 * slack, "signed-additive", [&] { return S("around ", q[0], ",", q[1], ",", q[2], ": ", (double) sum); }); }
    double t = interior(g, k.knots, k._degree, (int) k.control_points.size() - 1, 1e-2); if (nearKnot(k.knots, t, 1e-6)) return; auto pr = k.split(t); c.check(std::fabs(pr.first.length(lo, t, tol) + pr.second.length(t, hi, tol) - full) <= 4 * slack, "split", [&] { return S("at ", t); });
    if (mult(k.knots, t) < k._degree) { auto q = k; q.insert_knot(t, 1); c.check(std::fabs(q.length(lo, hi, tol) - full) <= 4 * slack, "knot-insertion"); }
}
SUITE(inverse, 1200, 30000) {
    Rng &g = c.rng; auto k = regular(g, true); describe(c, k); auto r = toRef(k); double lo = k.interval()[0], hi = k.interval()[1]; double t0 = g.p(.6) ? lo : g.uni(lo, lo + .3 * (hi - lo)), t1 = t0 + (hi - t0) * g.uni(.15, .85); ld l = refLen(r, t0, t1);
    ld mn = 1e9L, mx = 0; for (int i = 0; i <= 32; ++i) { ld v = R::d1(r, lo + (hi - lo) * (ld) i / 32).norm(); mn = std::min(mn, v); mx = std::max(mx, v); } if (mx > 2.2L * mn || k._degree == 1) return; // mild speed variation: Newton from nearby converges inside the domain
    double guess = t1 + g.uni(-.05, .05) * (hi - lo); guess = std::min(hi, std::max(lo, guess)); c.d << " t0=" << t0 << " l=" << (double) l << " guess=" << guess; c.nontrivial(fp(k));
    double tol = pow(10, -g.i(4, 7)), got = k.lengthAt((double) l, t0, guess, tol); c.check(std::isfinite(got) && fabsl(got - t1) <= (40 * tol * k.control_points.size() + 2e-4L * l) / mn + 2 * tol, "parameter", [&] { return S("lengthAt gives ", got, " expected ", t1); });
    if (t0 == lo && std::fabs(t1 - (lo + hi) / 2) < .1 * (hi - lo)) { double q = k.lengthAt((double) l); c.check(fabsl(q - t1) <= (4 * BASE * k.control_points.size() + 2e-4L * l) / mn + 2 * BASE, "parameter-default", [&] { return S("lengthAt(l)=", q, " expected ", t1); }); }
}
SUITE(rational_arc, 300, 5000) { // quarter circle: exact length r*pi/2
    Rng &g = c.rng; double R0 = g.uni(.1, 50), w = std::sqrt(.5); NURBSCurve k(std::vector<vec4>{{R0, 0, 0, 1}, {R0 * w, R0 * w, 0, w}, {0, R0, 0, 1}}, 2, std::vector<double>{0, 0, 0, 1, 1, 1}, false); describe(c, k); c.nontrivial(hd(R0)); double a = g.uni(0, .5), b = g.uni(.5, 1);
    c.check(std::fabs(k.length() - R0 * M_PI / 2) <= 3e-3 + 1e-4 * R0, "quarter-circle", [&] { return S("length ", k.length(), " exact ", R0 * M_PI / 2); }); vec3 p, q; k.evaluate(a, p); k.evaluate(b, q); double ang = std::atan2(q.y, q.x) - std::atan2(p.y, p.x);
    c.check(std::fabs(k.length(a, b, 1e-8) - R0 * ang) <= 1e-6 * (1 + R0), "arc", [&] { return S("length ", k.length(a, b, 1e-8), " exact ", R0 * ang); });
}
// unclamped and closed periodic curves, over the parameters they are defined on
SUITE(unclamped, 400, 8000) {
    Rng &g = c.rng; NURBSCurve k; if (g.p(.5)) { k = regular(g, true); auto U = k.knots; unclamp(g, U, k._degree); k = NURBSCurve(k.control_points, k._degree, U, false); } else { int p = g.i(1, 4), n = p + g.i(3, 7); std::vector<vec4> w(n); double R0 = g.uni(1, 5), e = g.uni(.5, 1); for (int i = 0; i < n; ++i) w[i] = vec4(R0 * cos(6.2831853 * i / n), R0 * e * sin(6.2831853 * i / n), g.uni(-.1, .1), 1); k = NURBSCurve(w, p, true); }
    describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); double lo = r.lo(), hi = r.hi(), tol = 1e-6; int bad = 0, N = 6, spans = (int) k.control_points.size(); ld full = refLen(r, lo, hi); std::string w;
    for (int i = 0; i < N; ++i) { double a = i == 0 || g.p(.2) ? lo : g.uni(lo, hi), b = i == 0 || g.p(.2) ? hi : g.uni(lo, hi); if (a > b) std::swap(a, b); ld e = refLen(r, a, b); double got = i == 0 ? k.length() : k.length(a, b, tol); if (i == 0) { c.check(std::isfinite(got) && fabsl(got - e) <= 2 * BASE * spans + .04L * full, "unclamped-whole", [&] { return S("length()=", got, " exact ", (double) e); }); continue; } c.check(std::isfinite(got) && fabsl(got - e) <= 30 * tol + .04L * full, "unclamped-hard", [&] { return S("length(", a, ",", b, ")=", got, " exact ", (double) e); }); if (!(fabsl(got - e) <= 30 * tol * spans + 1e-6L * e)) { ++bad; w = S("length(", a, ",", b, ")=", got, " exact ", (double) e); } }
    c.check(bad <= 2 * N / 3, "unclamped-tolerance", [&] { return S(bad, " of ", N, "; ", w); });
    double m = g.uni(lo, hi); c.check(std::fabs(k.length(lo, m, tol) + k.length(m, hi, tol) - k.length(lo, hi, tol)) <= 1e-2 * (1 + full), "unclamped-additive", [&] { return S("at ", m); });
}
// and back from a length to the parameter: speed close to constant, where Newton's method converges from the middle
SUITE(unclamped_inverse, 300, 6000) {
    Rng &g = c.rng; int p = g.i(1, 4), n = p + g.i(2, 8); std::vector<double> U(n + p + 1); double at = g.uni(-3, 3); for (auto &u : U) { u = at; at += g.uni(.5, 1.5); }
    std::vector<vec4> w(n); double f = g.uni(.3, 3), y = 0; for (int i = 0; i < n; ++i) { double gr = 0; for (int j = 1; j <= p; ++j) gr += U[i + j] / p; y += f * g.uni(-.1, .1); w[i] = vec4(f * gr, y, f * g.uni(-.02, .02), 1); }
    NURBSCurve k(w, p, U, false); if (g.p(.3)) { k = regular(g, true); if (k._degree < 1) return; } G::describe(c, k); c.nontrivial(G::fp(k));
    double lo = k.interval()[0], hi = k.interval()[1]; double smin = 1e300, smax = 0; for (int i = 0; i <= 400; ++i) { vec3 d; k.derivative(lo + (hi - lo) * i / 400, d); smin = std::min(smin, d.length()); smax = std::max(smax, d.length()); } if (!(smax < 1.4 * smin)) return;
    double full = k.length(); for (int i = 0; i < 3; ++i) { double l = full * g.uni(.15, .85), t = k.lengthAt(l, 1e-4); if (!c.check(t >= lo && t <= hi, "unclamped-inverse-range", [&] { return S("length ", l, " of ", full, " at ", t); })) return; ld e = 0; int N = 2000; for (int q = 0; q < N; ++q) { vec3 d; k.derivative(lo + (t - lo) * (q + .5) / N, d); e += (ld) d.length() * (t - lo) / N; } c.check(fabsl(e - l) <= 1e-2 * full, "unclamped-inverse", [&] { return S("length ", l, " of ", full, " at ", t, " is ", (double) e); }); }
}
HARNESS_MAIN
