// Knot insertion / refinement / removal leave the curve unchanged.
#include "gen.h"
using namespace G;
static ld relW(const NURBSCurve &k) { ld a = 1e9L, b = 0; for (auto &v : k.control_points) { a = std::min<ld>(a, v.w); b = std::max<ld>(b, v.w); } return b / a; }
static void same(Case &c, const R::Curve &r, const NURBSCurve &k, ld tol, const char *key, double at) {
    std::vector<double> ts = params(c.rng, k.knots, k._degree, (int) k.control_points.size() - 1, 5);
    for (double t : ts) { vec3 a; k.evaluate(t, a); R::P3 e = R::eval(r, t);
        if (!c.check(finite(a) && gap(a, e) <= tol, key, [&] { return S("after knot ", at, " point at t=", t, " moved to ", str(a), " from ", str(e)); })) return; }
}
SUITE(insert, 3000, 80000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 6; o.wild = .4; o.open = .15; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); int p = k._degree; auto dom = k.interval(); ld tol = 1e-10L * scaleOf(r) * relW(k) * (p + 2);
    int steps = g.i(1, 6);
    for (int q = 0; q < steps; ++q) {
        int n = (int) k.control_points.size() - 1; double t = interior(g, k.knots, p, n); if (g.p(.2)) { double x = g.pick(k.knots) + (g.p(.5) ? 1 : -1) * (dom[1] - dom[0]) * std::pow(10.0, g.uni(-9, -3)); if (x > r.lo() && x < r.hi()) t = x; } if (nearKnot(k.knots, t, 1e-11) || r.hi() - t < 1e-11L || t - r.lo() < 1e-11L) continue;
        int room = p - mult(k.knots, t); if (room <= 0) continue; int cnt = g.i(1, room); c.d << " insert " << t << " x" << cnt;
        auto before = k.knots; k.insert_knot(jitter(g, before, t), cnt); t = snapped(before, t);
        auto want = before; for (int i = 0; i < cnt; ++i) want.push_back(t); std::sort(want.begin(), want.end());
        c.check(k.knots == want, "knot-vector", [&] { return S("inserting ", t, " x", cnt); });
        c.check((int) k.control_points.size() == n + 1 + cnt, "count", [&] { return S(k.control_points.size()); });
        c.check(k.interval() == dom && k._degree == p, "domain");
        if ((int) k.control_points.size() == n + 1 + cnt) same(c, r, k, tol, "moved", t);
        if (c.failed) return;
    }
}
// The free functions used directly (knot_insertion, knot_insertion_kv).
SUITE(kernel, 1500, 30000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 6; o.wild = .4; o.open = .15; auto k = curve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); int p = k._degree, n = r.n(); double t = interior(g, k.knots, p, n); if (nearKnot(k.knots, t, 1e-11)) return;
    int s = mult(k.knots, t); if (s >= p) return; int cnt = g.i(1, p - s); c.d << " insert " << t << " x" << cnt;
    int span = cmmcore::find_span(n, p, t, k.knots, false); c.check(cmmcore::find_multiplicity(t, k.knots) == s, "multiplicity"); c.check(k.knots[span] <= t && t < k.knots[span + 1], "span");
    auto cp = cmmcore::knot_insertion(p, k.knots, k.control_points, t, cnt, s, span); auto kv = cmmcore::knot_insertion_kv(k.knots, t, span, cnt);
    if (!c.check(cp.size() == k.control_points.size() + cnt && kv.size() == k.knots.size() + cnt && std::is_sorted(kv.begin(), kv.end()), "sizes")) return;
    same(c, r, NURBSCurve(cp, p, kv, false), 1e-10L * scaleOf(r) * relW(k) * (p + 2), "moved", t);
}
SUITE(refine, 1500, 30000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 5; o.wild = .3; auto k = curve(g, o); describe(c, k); auto r = toRef(k); int p = k._degree, n = r.n();
    std::vector<double> list, add; int mode = g.i(0, 2), dens = 1;
    auto fresh = [&]() { for (int tries = 0; tries < 20; ++tries) { double t = g.uni(r.lo() + 1e-3 * (r.hi() - r.lo()), r.hi() - 1e-3 * (r.hi() - r.lo())); if (!nearKnot(k.knots, t, std::min(1e-4, 1e-4 * (double) (r.hi() - r.lo()))) && mult(k.knots, t) == 0) return t; } return (double) (r.lo() + r.hi()) / 2; };
    if (mode == 0) { int q = g.i(1, 4); for (int i = 0; i < q; ++i) list.push_back(fresh()); } else if (mode == 1) { dens = g.i(2, 3); } else { add.push_back(fresh()); }
    bool can = false; std::set<double> targets; for (double t : list) targets.insert(t); if (list.empty()) for (int i = p; i <= n + 1; ++i) targets.insert(k.knots[i]); for (double t : add) targets.insert(t);
    { std::vector<double> v(targets.begin(), targets.end()); for (int d = 1; d < dens; ++d) { std::vector<double> w; for (size_t i = 0; i + 1 < v.size(); ++i) { w.push_back(v[i]); w.push_back(v[i] + (v[i + 1] - v[i]) / 2.0); } w.push_back(v.back()); v = w; } targets = std::set<double>(v.begin(), v.end()); }
    double pr = -1e300; for (double t : targets) { if (mult(k.knots, t) < p) can = true; if (t - pr < 1.5e-11) return; pr = t; if (nearKnot(k.knots, t, 1.5e-11)) return; }
    if (!can) return; c.d << " refine mode " << mode << " density " << dens; for (double t : list) c.d << " at " << t; for (double t : add) c.d << " add " << t; c.nontrivial(fp(k));
    auto [cp, kv] = cmmcore::knot_refinement(p, k.knots, k.control_points, list, add, dens);
    auto want = k.knots; for (double t : targets) for (int i = mult(k.knots, t); i < p; ++i) want.push_back(t); std::sort(want.begin(), want.end());
    if (!c.check(kv == want, "knot-vector", [&] { std::string x; for (double v : kv) x += S(v, ","); return x; })) return;
    if (!c.check(cp.size() == k.control_points.size() + (want.size() - k.knots.size()), "count")) return;
    same(c, r, NURBSCurve(cp, p, kv, false), 1e-9L * scaleOf(r) * relW(k) * (p + 2), "moved", -1);
}
// insert once, remove once: the original control points come back
SUITE(remove, 1500, 30000) {
    Rng &g = c.rng; CurveOpt o; o.minDeg = 2; o.maxDeg = 5; o.maxExtra = 6; auto k = curve(g, o); describe(c, k); auto r = toRef(k); int p = k._degree, n = r.n(); double t = interior(g, k.knots, p, n, 1e-2); if (nearKnot(k.knots, t, 1e-2 * (r.hi() - r.lo()))) return;
    int s = mult(k.knots, t); if (s >= p) return; auto k2 = k; k2.insert_knot(t, 1); c.d << " knot " << t << " mult " << s; c.nontrivial(fp(k));
    auto cp = cmmcore::knot_removal(p, k2.knots, k2.control_points, t, 1e-6 * (double) scaleOf(r));
    if (!c.check(cp.size() == k.control_points.size(), "count")) return;
    ld amp = 1; for (int i = n - p; i <= n; ++i) amp *= 4; // division by alphas
    for (size_t i = 0; i < cp.size(); ++i) c.check(fabsl(cp[i].x - k.control_points[i].x) + fabsl(cp[i].y - k.control_points[i].y) + fabsl(cp[i].z - k.control_points[i].z) + fabsl(cp[i].w - k.control_points[i].w) <= 1e-6L * scaleOf(r) * relW(k) * 10, "restored", [&] { return S("control point ", i, " of ", cp.size()); });
}
HARNESS_MAIN
