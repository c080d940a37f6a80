// Curve derivatives against exact derivatives of the reference curve.
#include "gen.h"
using namespace G;
static bool smooth(const NURBSCurve &k, double t, double tol) { for (double u : k.knots) if (std::fabs(u - t) < tol) return false; return true; }
// closed curve made by the periodic constructors from control points that do not repeat
static NURBSCurve periodic(Rng &g) { int p = g.i(1, 5), n = p + 1 + g.i(1, 6); bool rat = g.p(.5); std::vector<vec4> w(n); for (auto &x : w) { double ww = rat ? g.uni(.4, 2.5) : 1; x = vec4(ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww); } NURBSCurve k(w, p, true); if (g.p(.3)) return k; NURBSCurve m(w, p); m.make_periodic(); return m; }
// magnitude bound for derivatives on the curve's neighbourhood
static ld mag(const R::Curve &r, double t) { return R::d1(r, t).norm() + scaleOf(r) / (r.hi() - r.lo()); }

SUITE(first, 2500, 60000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 8; o.wild = .2; o.open = .2; auto k = g.p(.15) ? periodic(g) : curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); ld sc = scaleOf(r), L = r.hi() - r.lo();
    for (int q = 0; q < 8; ++q) {
        double t = q == 0 ? (double) r.lo() : q == 1 ? (double) r.hi() : g.uni(r.lo(), r.hi());
        if (q > 1 && !smooth(k, t, 1e-3 * L)) continue;
        R::P3 e = R::d1(r, t); vec3 d(5, 5, 5), f, f2, x0, x1, x2; k.derivative(t, d); ld m = e.norm() + sc / L;
        c.check(finite(d) && gap(d, e) <= 1e-8L * m * (1 + k._degree), "derivative", [&] { return S("t=", t, " got ", str(d), " expected ", str(e)); });
        if (q > 1 && L > .3L && smooth(k, t, 1e-4)) {
            R::P3 e2 = R::d2(r, t); double h = 1e-5; ld m3 = 0; for (int s = -2; s <= 2; ++s) m3 = std::max(m3, (R::d2(r, t + s * h) - e2).norm());
            ld tol1 = 1e-9L * sc / h * 1e-2L + 4 * m3 * h + 1e-6L * e.norm();
            k.derivative_fdm(t, f); c.check(gap(f, e) <= tol1, "derivative-fdm", [&] { return S("t=", t, " got ", str(f), " expected ", str(e)); });
            ld tol2 = 64 * 2.3e-16L * sc * (1 + 4 * k._degree) / (h * h) + 4 * m3 + 1e-6L * e2.norm();
            if (!(tol2 < .2L * e2.norm() || tol2 < .2L * sc / (L * L))) continue;
            k.second_derivative_fdm(t, f2); c.check(gap(f2, e2) <= tol2, "second-derivative-fdm", [&] { return S("t=", t, " got ", str(f2), " expected ", str(e2), " tol ", (double) tol2); });
            k.derivatives(t, x0, x1, x2);
            c.check(gap(x0, R::eval(r, t)) <= 1e-10L * sc && gap(x1, e) <= tol1 && gap(x2, e2) <= tol2, "derivatives-triple", [&] { return S("t=", t, str(x0), str(x1), str(x2), " expected ", str(e), str(e2)); });
        }
    }
}
SUITE(higher, 1500, 40000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 8; o.wild = .2; o.rational = 2; o.open = .2; auto k = g.p(.15) ? periodic(g) : curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); ld sc = scaleOf(r), L = r.hi() - r.lo(); int p = k._degree;
    bool rat = false; for (auto &v : k.control_points) rat |= v.w != 1; ld wl = 1e9L, wh = 0; for (auto &v : k.control_points) { wl = std::min<ld>(wl, v.w); wh = std::max<ld>(wh, v.w); }
    for (int q = 0; q < 4; ++q) {
        double t = g.uni(r.lo(), r.hi()); if (!smooth(k, t, 1e-3 * L)) continue;
        int nd = g.i(1, p + 3); std::vector<vec3> out; k.derivative(t, out, nd);
        if (!c.check((int) out.size() == nd, "count", [&] { return S(out.size()); })) continue;
        ld minGap = L; for (size_t i = 0; i + 1 < k.knots.size(); ++i) if (k.knots[i + 1] > k.knots[i]) minGap = std::min<ld>(minGap, k.knots[i + 1] - k.knots[i]);
        auto E = R::ders(r, t, nd); { std::vector<vec3> sized(nd, vec3(9, 9, 9)); k.derivative(t, sized); bool eq = sized.size() == out.size(); for (int d = 0; eq && d < nd; ++d) eq = sized[d].x == out[d].x && sized[d].y == out[d].y && sized[d].z == out[d].z; c.check(eq, "by-size"); }
        for (int d = 0; d < nd; ++d) { R::P3 e = E[d]; ld bound = sc; for (int i = 0; i < d; ++i) bound *= (rat ? 2 * (wh / wl) * (i + 1) : 1) * 2 * std::max(1, p - i) / minGap;
            c.check(finite(out[d]) && gap(out[d], e) <= 1e-9L * (bound + e.norm()), "order", [&] { return S("t=", t, " order ", d, " got ", str(out[d]), " expected ", str(e)); }); }
        std::vector<vec4> CK; cmmcore::curve_derivs_alg1(r.n(), p, k.knots, k.control_points, t, std::min(nd, p + 1) - 1, CK, false);
        for (int d = 0; d < nd && d < (int) CK.size(); ++d) { R::P4 h = R::hom(r, t, d); ld bound = std::max<ld>(sc, 1); for (int i = 0; i < d; ++i) bound *= 2 * (p - i) / minGap;
            c.check(gap(vec3(CK[d].x, CK[d].y, CK[d].z), R::P3{h.x, h.y, h.z}) <= 1e-9L * bound * wh && std::fabs(CK[d].w - h.w) <= 1e-9L * bound * wh / sc, "kernel-order", [&] { return S("order ", d); }); }
    }
}
// Derivative control points of the kernel: C^(k)(t) = sum N_{i,p-k} PK[k][i] over the trimmed knot vector.
SUITE(deriv_cpts, 800, 15000) {
    Rng &g = c.rng; CurveOpt o; o.minDeg = 1; o.maxDeg = 5; o.rational = 0; o.knotKind = g.p(.5) ? 1 : 0; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); int p = k._degree, n = r.n(); ld sc = scaleOf(r);
    int d = g.i(1, p); std::vector<std::vector<vec4>> PK; cmmcore::curve_deriv_cpts(p, k.knots, k.control_points, d, 0, n, PK);
    for (int kk = 0; kk <= d; ++kk) {
        R::Curve h; h.p = p - kk; h.U.assign(k.knots.begin() + kk, k.knots.end() - kk); bool ok = (int) PK[kk].size() >= n + 1 - kk; for (int i = 0; ok && i <= n - kk; ++i) h.P.push_back(p4(PK[kk][i]));
        if (!c.check(ok, "size")) continue;
        for (int q = 0; q < 3; ++q) { double t = g.uni(r.lo(), r.hi()); R::P4 a = R::hom(h, t), b = R::hom(r, t, kk); ld bound = sc; for (int i = 0; i < kk; ++i) bound *= 2 * p / std::min<ld>(1, (r.hi() - r.lo()) / (4 * (n + 1)));
            c.check((R::P3{a.x, a.y, a.z} - R::P3{b.x, b.y, b.z}).norm() <= 1e-9L * bound, "hodograph", [&] { return S("order ", kk, " t=", t); }); }
    }
}
SUITE(derivative_curve, 1500, 30000) {
    Rng &g = c.rng; CurveOpt o; o.minDeg = 2; o.maxDeg = 6; o.rational = 0; o.maxMultMinus = 1; o.wild = .2; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); ld L = r.hi() - r.lo(), sc = scaleOf(r);
    NURBSCurve h = k.get_derivative(), h2; k.get_derivative(h2);
    for (auto *q : {&h, &h2}) {
        if (!c.check(q->_degree == k._degree - 1 && q->control_points.size() + 1 == k.control_points.size() && q->interval() == k.interval() && q->knots.size() + 2 == k.knots.size(), "shape")) continue;
        for (int i = 0; i < 5; ++i) { double t = i == 0 ? (double) r.lo() : i == 1 ? (double) r.hi() : g.uni(r.lo(), r.hi()); if (i > 1 && !smooth(k, t, 1e-4 * L)) continue; vec3 a; q->evaluate(t, a); R::P3 e = R::d1(r, t);
            c.check(finite(a) && gap(a, e) <= 1e-9L * (e.norm() + sc / L * 10 * k.control_points.size()), "value", [&] { return S("t=", t, str(a), " expected ", str(e)); }); }
    }
}
SUITE(derivative_unclamped, 500, 10000) {
    Rng &g = c.rng; CurveOpt o; o.minDeg = 2; o.maxDeg = 6; o.rational = 0; o.maxMultMinus = 1; o.open = 1; auto k = curve(g, o); if (g.p(.3)) { k = periodic(g); if (k._degree < 2) return; for (auto &v : k.control_points) v.w = 1; } describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); ld L = r.hi() - r.lo(), sc = scaleOf(r);
    NURBSCurve q = k.get_derivative(); if (!c.check(q._degree == k._degree - 1 && q.control_points.size() + 1 == k.control_points.size() && q.knots == std::vector<double>(k.knots.begin() + 1, k.knots.end() - 1), "unclamped-shape")) return;
    ld least = L; for (size_t i = 1; i + k._degree < k.knots.size(); ++i) if (k.knots[i + k._degree] > k.knots[i]) least = std::min<ld>(least, k.knots[i + k._degree] - k.knots[i]); ld big = sc * 2 * k._degree / least;
    for (int i = 0; i < 5; ++i) { double t = i == 0 ? (double) r.lo() : i == 1 ? (double) r.hi() : g.uni(r.lo(), r.hi()); if (i > 1 && !smooth(k, t, 1e-4 * L)) continue; vec3 a; q.evaluate(t, a); R::P3 e = R::d1(r, t); c.check(finite(a) && gap(a, e) <= 1e-10L * (e.norm() + big * (1 + k._degree)), "unclamped-value", [&] { return S("t=", t, str(a), " expected ", str(e)); }); }
}
HARNESS_MAIN
