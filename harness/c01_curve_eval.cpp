// Curve evaluation against the rational B-spline definition.
#include "gen.h"
using namespace G;

static void checkCurve(Case &c, const NURBSCurve &k, int extra) {
    auto r = toRef(k); ld sc = scaleOf(r); Rng &g = c.rng;
    for (double t : params(g, k.knots, k._degree, (int) k.control_points.size() - 1, extra)) {
        R::P3 e = R::eval(r, t); vec3 a(7, 7, 7), b(0); k.evaluate(t, a); k(t, b); vec3 d = k(t);
        c.check(finite(a) && gap(a, e) <= 1e-10L * sc, "value", [&] { return S("t=", t, " got ", str(a), " expected ", str(e)); });
        c.check(gap(b, e) <= 1e-10L * sc && gap(d, e) <= 1e-10L * sc, "call-operator", [&] { return S("t=", t, " got ", str(b), str(d), " expected ", str(e)); });
    }
}
// Unclamped knot vectors: valid between U[degree] and U[number of points].
SUITE(eval_unclamped, 800, 15000) { CurveOpt o; o.maxDeg = 8; o.wild = .2; o.open = 1; auto k = curve(c.rng, o); describe(c, k); c.nontrivial(fp(k)); checkCurve(c, k, 6); }
SUITE(eval_custom, 2500, 60000) {
    CurveOpt o; o.maxDeg = 8; o.wild = .4; auto k = curve(c.rng, o); describe(c, k); c.nontrivial(fp(k));
    checkCurve(c, k, 6);
    c.check(k.interval()[0] == k.knots[k._degree] && k.interval()[1] == k.knots[k.control_points.size()], "interval", [&] { return S("interval ", k.interval()[0], " ", k.interval()[1]); });
    // clamped end interpolation, stated directly on the control points
    vec3 a, b; k.evaluate(k.interval()[0], a); k.evaluate(k.interval()[1], b); auto r = toRef(k); ld sc = scaleOf(r);
    auto &f = r.P.front(); auto &l = r.P.back();
    c.check(gap(a, R::P3{f.x / f.w, f.y / f.w, f.z / f.w}) <= 1e-10L * sc && gap(b, R::P3{l.x / l.w, l.y / l.w, l.z / l.w}) <= 1e-10L * sc, "end-interpolation", [&] { return S(str(a), str(b)); });
}
// Constructors that derive the knots themselves.
SUITE(eval_ctor, 900, 20000) {
    Rng &g = c.rng; int p = g.i(1, 5), n = p + 1 + g.i(0, 7); std::vector<vec3> q(n); std::vector<vec4> w(n);
    bool rat = g.p(.5);
    for (int i = 0; i < n; ++i) { q[i] = point(g, g.i(0, 3), i, n); double ww = rat ? g.uni(.3, 3) : 1; w[i] = vec4(q[i].x * ww, q[i].y * ww, q[i].z * ww, ww); }
    NURBSCurve a(q, p), b(w, p), d(w, p, false);
    describe(c, b); c.nontrivial(fp(b));
    for (auto *k : {&a, &b, &d}) {
        c.check((int) k->knots.size() == n + p + 1 && (int) k->control_points.size() == n && k->get_degree() == p, "shape", [&] { return S("knots ", k->knots.size()); });
        bool ok = (int) k->knots.size() == n + p + 1; for (int i = 0; ok && i < n + p + 1; ++i) { double e = i <= p ? 0 : i >= n ? n - p : i - p; ok = k->knots[i] == e; }
        c.check(ok, "open-uniform-knots", [&] { return S("degree ", p, " cps ", n); });
        checkCurve(c, *k, 3);
    }
    bool same = true; for (double t : params(g, a.knots, p, n - 1, 3)) if (!rat) { vec3 x, y; a.evaluate(t, x); b.evaluate(t, y); same = same && gap(x, y) < 1e-9; }
    c.check(same, "vec3-vs-vec4-ctor");
    // changing control points / knots in place
    NURBSCurve m(w, p); int n2 = g.p(.5) ? n : p + 1 + g.i(0, 7); std::vector<vec4> w2(n2); for (int i = 0; i < n2; ++i) w2[i] = vec4(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5), 1);
    m.set_control_points(w2); checkCurve(c, m, 3);
    c.check((int) m.knots.size() == n2 + p + 1 && m.interval()[1] == m.knots[n2], "set-control-points", [&] { return S(m.knots.size()); });
    auto U = knots(g, n2, p, g.i(0, 3), p); auto U2 = U; m.set_knots(U2); c.check(m.get_knots() == U && m.interval()[0] == U.front() && m.interval()[1] == U.back(), "set-knots"); checkCurve(c, m, 3);
    m.normalize_knots(); bool nk = m.interval()[0] == 0 && std::fabs(m.interval()[1] - 1) < 1e-12; for (int i = 0; i < (int) U.size(); ++i) nk = nk && std::fabs(m.knots[i] - (U[i] - U[0]) / (U.back() - U[0])) < 1e-12;
    c.check(nk, "normalize-knots"); 
    NURBSCurve before(w2, p, U, false); bool shp = true; vec3 x, y; for (int i = 0; i < 5; ++i) { double s = g.u(); m.evaluate(s, x); before.evaluate(U[0] + s * (U.back() - U[0]), y); shp = shp && gap(x, y) < 1e-7; }
    c.check(shp, "normalize-keeps-shape");
}
// Constructors with default degree, the sized constructor, and in-place rebuilding.
SUITE(ctor_defaults, 700, 15000) {
    Rng &g = c.rng; int n = g.i(2, 9), p = n >= 4 ? 3 : 1; std::vector<vec4> w(n); bool rat = g.p(.5);
    for (int i = 0; i < n; ++i) { double ww = rat ? g.uni(.4, 2.5) : 1; w[i] = vec4(ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww); }
    NURBSCurve open(w), flag(w, false), ref(w, p, false); describe(c, open); c.nontrivial(fp(open));
    for (auto *k : {&open, &flag}) { c.check(k->get_degree() == p && k->knots == ref.knots && k->control_points.size() == w.size() && !k->_periodic, "default-degree", [&] { return S("degree ", k->get_degree(), " knots ", k->knots.size(), " for ", n, " points"); }); checkCurve(c, *k, 3); }
    if (n >= p + 1 && n > 2) { // the periodic form, from three directions
        NURBSCurve per(w, true), want(w, p, true), made(w, p); made.make_periodic(); std::vector<vec3> w3(n); for (int i = 0; i < n; ++i) w3[i] = vec3(w[i].x, w[i].y, w[i].z); NURBSCurve three(w3, p, true);
        for (auto *k : {&per, &made}) { c.check(k->knots == want.knots && k->control_points.size() == want.control_points.size() && k->get_degree() == p && k->_periodic && k->interval() == want.interval(), "default-periodic", [&] { return S("degree ", k->get_degree(), " points ", k->control_points.size()); }); checkCurve(c, *k, 3); }
        c.check(three.knots == want.knots && three.control_points.size() == want.control_points.size() && three._periodic, "vec3-periodic"); if (!rat) for (int k = 0; k < 3; ++k) { double t = g.uni(0, n); vec3 a, b; three.evaluate(t, a); want.evaluate(t, b); c.check(gap(a, b) < 1e-10, "vec3-periodic-value"); }
        // replacing the points of a periodic curve by another number of (already wrapped) points
        int q = g.i(p + 2, 9); std::vector<vec4> v(q + p); for (int i = 0; i < q + p; ++i) v[i] = i < q ? vec4(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5), 1) : v[i - q]; NURBSCurve r = want; r.set_control_points(v); c.check(r.control_points.size() == v.size() && r.knots.size() == v.size() + p + 1, "periodic-set-control-points", [&] { return S(r.knots.size()); }); checkCurve(c, r, 4); if (v.size() != want.control_points.size()) { NURBSCurve fresh(std::vector<vec4>(v.begin(), v.begin() + q), p, true); c.check(r.knots == fresh.knots, "periodic-reknot"); } }
    int d = g.i(1, 4), m = d + 1 + g.i(0, 5); bool per = g.p(.4); NURBSCurve z((size_t) m, d, per); bool ok = (int) z.control_points.size() == m && (int) z.knots.size() == m + d + 1 && z.get_degree() == d && z._periodic == per; for (int i = 0; ok && i < m + d + 1; ++i) ok = z.knots[i] == (per ? i - d : i <= d ? 0 : i >= m ? m - d : i - d); c.check(ok && z.interval()[0] == 0 && z.interval()[1] == m - d, "sized", [&] { return S("points ", z.control_points.size(), " knots ", z.knots.size(), " degree ", z.get_degree(), " periodic ", z._periodic); });
    std::vector<vec4> v(m); for (auto &x : v) x = vec4(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5), 1); z.set_control_points(v); checkCurve(c, z, 3);
    std::vector<vec3> p3{vec3(1, 1, 1)}; auto &same = z.get_control_points3d(p3); bool eq = &same == &p3 && p3.size() == v.size(); for (int i = 0; eq && i < m; ++i) eq = p3[i].x == v[i].x && p3[i].y == v[i].y && p3[i].z == v[i].z; c.check(eq && z.get_control_points().size() == v.size(), "points-3d");
    // fresh default knots after custom ones, also with another degree
    NURBSCurve k(v, d); auto U = knots(g, m, d, g.i(0, 3), d); for (double &x : U) x = x * 3 + 11; k.set_knots(U); int d2 = g.i(1, d); k.set_degree(d2); k.generate_knots(); NURBSCurve f(v, d2); c.check(k.get_degree() == d2 && k.knots == f.knots && k.interval() == f.interval(), "regenerated-knots"); checkCurve(c, k, 3);
}
// Periodic curves: valid domain is [U[p], U[n+1]]; the curve closes there with its derivatives.
SUITE(eval_periodic, 600, 12000) {
    Rng &g = c.rng; int p = g.i(1, 4), n = p + 2 + g.i(0, 6); std::vector<vec4> w(n); bool rat = g.p(.5);
    for (int i = 0; i < n; ++i) { double ww = rat ? g.uni(.4, 2.5) : 1; w[i] = vec4(ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww * g.uni(-5, 5), ww); }
    NURBSCurve k(w, p, true); describe(c, k); c.nontrivial(fp(k));
    if (!c.check((int) k.control_points.size() == n + p && k.knots.size() == (size_t) (n + 2 * p + 1), "wrapped-size", [&] { return S(k.control_points.size(), " ", k.knots.size()); })) return;
    bool wrap = true; for (int i = 0; i < n + p; ++i) wrap = wrap && gap(vec3(k.control_points[i].x, k.control_points[i].y, k.control_points[i].z), vec3(w[i % n].x, w[i % n].y, w[i % n].z)) == 0 && k.control_points[i].w == w[i % n].w;
    c.check(wrap && k.is_periodic(), "wrapped-points");
    checkCurve(c, k, 6);
    vec3 a, b; k.evaluate(k.knots[p], a); k.evaluate(k.knots[n + p], b); c.check(gap(a, b) < 1e-9, "closes", [&] { return S(str(a), str(b)); });
    // applying it again changes nothing
    NURBSCurve k2 = k; k2.make_periodic(); c.check(k2.control_points.size() == k.control_points.size() && k2.knots == k.knots, "idempotent");
}
// The scalar kernels: span search and basis functions.
SUITE(basis, 1500, 40000) {
    Rng &g = c.rng; int p = g.i(0, 8), n = p + 1 + g.i(0, 9); auto U = knots(g, n, p, g.i(0, 3), std::max(1, p)); if (p > 0 && g.p(.4)) wildKnots(g, U); c.d << "p=" << p << " n=" << n; for (double u : U) c.d << " " << u;
    c.nontrivial(hcomb(hd(U[n / 2 + 1]), p * 100 + n));
    for (double t : params(g, U, p, n - 1, 5)) {
        int s = cmmcore::find_span(n - 1, p, t, U, false), e = R::span(n - 1, p, U, t);
        if (!c.check(s == e, "span", [&] { return S("t=", t, " got ", s, " expected ", e); })) continue;
        std::array<double, cmmcore::CMMCORE_DEG_STACK_SIZE> N{}; cmmcore::basis_funs(s, t, p, U, N);
        ld sum = 0; bool ok = true; for (int j = 0; j <= p; ++j) { sum += N[j]; ok = ok && N[j] >= -1e-12 && fabsl(N[j] - R::basis(s - p + j, p, 0, U, t, s)) < 1e-11L; }
        c.check(ok && fabsl(sum - 1) < 1e-12L, "basis", [&] { return S("t=", t, " sum=", (double) sum); });
    }
    // multiplicity and distinct-knot helpers
    std::vector<double> uq, uq2; std::vector<int> mu; cmmcore::getKnotMultiplicities(U, uq, mu); auto U2 = U; cmmcore::uniqueKnots(U2, uq2);
    std::vector<double> eu; std::vector<int> em; for (double u : U) { if (eu.empty() || u != eu.back()) { eu.push_back(u); em.push_back(0); } ++em.back(); }
    c.check(uq == eu && mu == em, "multiplicities"); c.check(uq2 == eu, "unique-knots");
    for (size_t i = 0; i < eu.size(); ++i) c.check(cmmcore::find_multiplicity(eu[i], U) == em[i], "find-multiplicity");
    c.check(cmmcore::find_multiplicity(U.back() + 0.37, U) == 0, "find-multiplicity-absent");
}
HARNESS_MAIN
