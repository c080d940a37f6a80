// Split, repeated split, decompose, join.
#include "gen.h"
using namespace G;
static ld relW(const NURBSCurve &k) { ld a = 1e9L, b = 0; for (auto &v : k.control_points) { a = std::min<ld>(a, v.w); b = std::max<ld>(b, v.w); } return b / a; }
static bool clamped(const NURBSCurve &k) { if (k._periodic) return false; int p = k._degree, n = (int) k.control_points.size(); if ((int) k.knots.size() != n + p + 1 || n < p + 1) return false;
    for (int i = 1; i <= p; ++i) if (k.knots[i] != k.knots[0] || k.knots[n + p - i] != k.knots[n + p]) return false; return std::is_sorted(k.knots.begin(), k.knots.end()) && k.knots[p] < k.knots[n]; }
static bool sameState(const NURBSCurve &a, const NURBSCurve &b) { if (a.knots != b.knots || a._degree != b._degree || a._interval != b._interval || a._periodic != b._periodic || a.control_points.size() != b.control_points.size()) return false;
    return a.control_points.empty() || !memcmp(a.control_points.data(), b.control_points.data(), a.control_points.size() * sizeof(vec4)); }
// piece k (its own domain [a,b]) traces r on [a,b] mapped affinely to [ra,rb]
static void piece(Case &c, const R::Curve &r, const NURBSCurve &k, ld ra, ld rb, ld tol, const char *key) {
    double a = k.interval()[0], b = k.interval()[1];
    for (int i = 0; i <= 8; ++i) { double f = i == 0 ? 0 : i == 8 ? 1 : c.rng.u(); double t = a + (b - a) * f; if (i == 8) t = b; vec3 x; k.evaluate(t, x); R::P3 e = R::eval(r, ra + (rb - ra) * (((ld) t - a) / ((ld) b - a)));
        if (!c.check(finite(x) && gap(x, e) <= tol, key, [&] { return S("piece [", a, ",", b, "] at ", t, " gives ", str(x), " original ", str(e)); })) return; }
}
// clamped, unclamped, or periodic with the constructor's own knots
static NURBSCurve anyCurve(Rng &g, const CurveOpt &o) { if (!g.p(.1)) return curve(g, o); int p = g.i(1, 4), n = p + g.i(2, 7); bool rat = g.p(.4); std::vector<vec4> w(n); for (int i = 0; i < n; ++i) { vec3 q = point(g, g.p(.5) ? CLOSED : BOX, i, n + 1); double h = rat ? g.uni(.4, 2.5) : 1; w[i] = vec4(q.x * h, q.y * h, q.z * h, h); } return NURBSCurve(w, p, true); }
SUITE(split, 3000, 80000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 6; o.open = .25; auto k = anyCurve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); auto orig = k; ld tol = 1e-10L * scaleOf(r) * relW(k) * (k._degree + 2);
    double t = interior(g, k.knots, k._degree, r.n()); if (nearKnot(k.knots, t, 1e-6)) return; bool norm = g.p(.3); c.d << " split at " << t << " norm " << norm;
    double ts = jitter(g, k.knots, t); auto [a, b] = k.split(ts, norm); t = snapped(k.knots, ts);
    c.check(sameState(k, orig), "source-changed");
    if (!c.check(clamped(a) && clamped(b) && a._degree == k._degree && b._degree == k._degree, "clamped", [&] { return S("knots ", a.knots.size(), " ", b.knots.size(), " cps ", a.control_points.size(), " ", b.control_points.size()); })) return;
    if (norm) c.check(a.interval()[0] == 0 && std::fabs(a.interval()[1] - 1) <= 1e-15 && b.interval()[0] == 0 && std::fabs(b.interval()[1] - 1) <= 1e-15, "normalised-domain");
    else c.check(a.interval()[0] == k.interval()[0] && std::fabs(a.interval()[1] - t) <= 1e-12 && b.interval()[0] == a.interval()[1] && b.interval()[1] == k.interval()[1], "domain");
    piece(c, r, a, r.lo(), t, tol, "first-piece"); piece(c, r, b, t, r.hi(), tol, "second-piece");
    // control polygons together carry every interior knot with its multiplicity
    if (!norm) { std::vector<double> in; int p = k._degree; for (size_t i = p + 1; i + p + 1 < a.knots.size(); ++i) in.push_back(a.knots[i]); for (size_t i = p + 1; i + p + 1 < b.knots.size(); ++i) in.push_back(b.knots[i]);
        std::vector<double> want; for (size_t i = p + 1; i + p + 1 < k.knots.size(); ++i) if (std::fabs(k.knots[i] - t) > 1e-12 && k.knots[i] > k.knots[p] && k.knots[i] < k.knots[k.control_points.size()]) want.push_back(k.knots[i]); c.check(in == want, "interior-knots"); }
}
SUITE(repeated, 1200, 30000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 5; o.open = .25; auto k = anyCurve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); ld tol = 1e-9L * scaleOf(r) * relW(k) * (k._degree + 2);
    std::vector<NURBSCurve> ps{k}; int steps = g.i(2, 8); ld L = r.hi() - r.lo();
    for (int q = 0; q < steps; ++q) { size_t w = g.i(0, (int) ps.size() - 1); NURBSCurve x = ps[w]; if (x.interval()[1] - x.interval()[0] < 1e-2 * L) continue;
        double t = g.p(.3) ? .5 * (x.interval()[0] + x.interval()[1]) : interior(g, x.knots, x._degree, (int) x.control_points.size() - 1, 1e-2); if (nearKnot(x.knots, t, 1e-6)) continue; c.d << " @" << t;
        t = jitter(g, x.knots, t); auto pr = x.split(t); ps[w] = pr.second; ps.insert(ps.begin() + w, pr.first); }
    c.check(ps.front().interval()[0] == k.interval()[0] && ps.back().interval()[1] == k.interval()[1], "ends");
    for (size_t i = 0; i < ps.size(); ++i) { if (i) c.check(ps[i].interval()[0] == ps[i - 1].interval()[1], "partition"); if (c.check(clamped(ps[i]), "clamped")) piece(c, r, ps[i], ps[i].interval()[0], ps[i].interval()[1], tol, "piece"); }
}
SUITE(decompose, 2000, 40000) {
    Rng &g = c.rng; CurveOpt o; o.maxDeg = 5; o.open = .25; auto k = anyCurve(g, o); describe(c, k); c.nontrivial(fp(k)); auto r = toRef(k); auto orig = k; ld tol = 1e-9L * scaleOf(r) * relW(k) * (k._degree + 2);
    std::vector<NURBSCurve> bz; k.decompose(bz); c.check(sameState(k, orig), "source-changed");
    std::vector<double> uk; for (size_t i = k._degree; i <= k.control_points.size(); ++i) if (uk.empty() || k.knots[i] != uk.back()) uk.push_back(k.knots[i]);
    if (!c.check(bz.size() + 1 == uk.size(), "count", [&] { return S(bz.size(), " pieces, ", uk.size() - 1, " spans"); })) return;
    for (size_t i = 0; i < bz.size(); ++i) { c.check(bz[i].interval()[0] == uk[i] && bz[i].interval()[1] == uk[i + 1], "spans"); c.check((int) bz[i].control_points.size() == k._degree + 1 && clamped(bz[i]), "bezier");
        if (!c.failed) piece(c, r, bz[i], uk[i], uk[i + 1], tol, "piece"); }
}
SUITE(edge_rejected, 800, 8000) {
    Rng &g = c.rng; CurveOpt o; o.open = .25; auto k = anyCurve(g, o); describe(c, k); c.nontrivial(fp(k)); double lo = k.knots[k._degree], hi = k.knots[k.control_points.size()]; c.check(k.interval()[0] == lo && k.interval()[1] == hi, "interval"); auto orig = k;
    double bad[] = {lo, hi, lo - g.uni(1e-9, 5), hi + g.uni(1e-9, 5), std::nextafter(lo, hi), std::nextafter(hi, lo)};
    for (double t : bad) { bool threw = false; try { k.split(t); } catch (const std::invalid_argument &) { threw = true; } c.check(threw, "accepted", [&] { return S("split at ", t, " of [", lo, ",", hi, "]"); }); }
    c.check(sameState(k, orig), "source-changed");
}
// join: open curves of one degree
static NURBSCurve openCurve(Rng &g, int p, bool rat) { CurveOpt o; o.minDeg = o.maxDeg = p; o.rational = rat; o.shape = BOX; return curve(g, o); }
SUITE(join, 1500, 30000) {
    Rng &g = c.rng; int p = g.i(1, 4); bool rat = g.p(.3); NURBSCurve a = openCurve(g, p, rat), b = openCurve(g, p, rat); int how = g.i(0, 4);
    auto endp = [](NURBSCurve &k, int e) -> vec4 & { return e ? k.control_points.back() : k.control_points.front(); };
    int ea = 0, eb = 0; if (how < 4) { ea = how & 1; eb = how >> 1; endp(b, eb) = endp(a, ea); if (rat && g.p(.5)) endp(b, eb) = endp(a, ea) * g.uni(.4, 2.5); } // the same point with another weight is shared, the same coordinates with another weight are not
    if (rat && g.p(.3)) { auto &q = endp(a, 1 - ea), &z = endp(b, 1 - eb); if (!(ea != eb && how < 4 && a.control_points.size() < 3)) { z = q; z.w = q.w * (g.p(.5) ? g.uni(.3, .7) : g.uni(1.4, 3)); } }
    if (how == 4 && g.p(.3)) { // ends that come close are not shared
        auto &z = endp(b, g.i(0, 1)); const auto &q = endp(a, g.i(0, 1)); double d = pow(10, g.uni(-8, -3)); z = vec4(q.x / q.w, q.y / q.w, q.z / q.w, 1); z[g.i(0, 2)] += g.p(.5) ? d : -d; }
    a.rebuildAABB(); b.rebuildAABB();
    describe(c, a); describe(c, b); c.d << " share " << how; c.nontrivial(hcomb(fp(a), fp(b)));
    NURBSCurve r; bool ok = a.join(b, r);
    c.check(ok == (how < 4), "success", [&] { return S("join returned ", ok, " for how=", how); }); if (!ok) return;
    vec3 fa, fb, s, e; a.evaluate(a.interval()[1 - ea], fa); b.evaluate(b.interval()[1 - eb], fb); int n = (int) r.control_points.size();
    if (!c.check((int) r.knots.size() == n + r._degree + 1 && r._degree == p && n >= p + 1, "well-formed")) return;
    r.evaluate(r.interval()[0], s); r.evaluate(r.interval()[1], e); ld tol = 1e-9L * 20;
    c.check((gap(s, fa) <= tol && gap(e, fb) <= tol) || (gap(s, fb) <= tol && gap(e, fa) <= tol), "free-ends", [&] { return S("joined runs ", str(s), " to ", str(e), " free ends ", str(fa), " ", str(fb)); });
    // the curves only share this one point, so the joined control polygon is theirs, and it stays open
    c.check(!r._periodic && n >= (int) (a.control_points.size() + b.control_points.size()) - 1 && n <= (int) (a.control_points.size() + b.control_points.size()), "open-result", [&] { return S(n); });
}
// an open curve whose first and last control points have the same homogeneous coordinates and other weights
SUITE(join_almost_closed, 400, 6000) {
    Rng &g = c.rng; int p = g.i(1, 3), n = 2 * p + g.i(1, 4); NURBSCurve a, b = openCurve(g, p, false), r; { std::vector<vec4> w(n); for (auto &v : w) v = vec4(g.uni(1, 9), g.uni(1, 9), g.uni(1, 9), g.uni(.5, 2)); for (int j = 0; j < p; ++j) { w[n - p + j] = w[j]; w[n - p + j].w = w[j].w * g.uni(1.3, 2); } a = NURBSCurve(w, p, false); }
    int ea = g.i(0, 1), eb = g.i(0, 1); auto &z = ea ? a.control_points.back() : a.control_points.front(); auto &q = eb ? b.control_points.back() : b.control_points.front(); q = vec4(z.x / z.w, z.y / z.w, z.z / z.w, 1); b.rebuildAABB(); describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    bool first = g.p(.5), ok = first ? a.join(b, r) : b.join(a, r); if (!c.check(ok, "almost-closed-refused")) return;
    vec3 fa, fb, s, e; a.evaluate(a.interval()[1 - ea], fa); b.evaluate(b.interval()[1 - eb], fb); r.evaluate(r.interval()[0], s); r.evaluate(r.interval()[1], e); ld tol = 2e-8L;
    c.check((gap(s, fa) <= tol && gap(e, fb) <= tol) || (gap(s, fb) <= tol && gap(e, fa) <= tol), "almost-closed-ends", [&] { return S("joined runs ", str(s), " to ", str(e), " free ends ", str(fa), " ", str(fb)); });
}
SUITE(join_unclamped, 500, 8000) { // the ends of an unclamped curve are points of the curve, not control points
    Rng &g = c.rng; int p = g.i(1, 4); bool rat = g.p(.3); NURBSCurve a = openCurve(g, p, rat), b = openCurve(g, p, rat), r; for (NURBSCurve *k : {&a, &b}) if (k == &a || g.p(.6)) { auto U = k->knots; unclamp(g, U, p); *k = NURBSCurve(k->control_points, p, U, false); }
    if (g.p(.5)) std::swap(a, b); int how = g.i(0, 4), ea = how & 1, eb = how >> 1; auto at = [](NURBSCurve &k, int e) { vec3 x; k.evaluate(e ? k.knots[k.control_points.size()] : k.knots[k._degree], x); return x; };
    if (how < 4) { vec3 x = at(a, ea), y = at(b, eb); for (auto &v : b.control_points) { v.x += (x.x - y.x) * v.w; v.y += (x.y - y.y) * v.w; v.z += (x.z - y.z) * v.w; } b.rebuildAABB(); } describe(c, a); describe(c, b); c.d << " share " << how; c.nontrivial(hcomb(fp(a), fp(b))); uint64_t ha = fp(a), hb = fp(b);
    bool ok = a.join(b, r); c.check(fp(a) == ha && fp(b) == hb, "inputs-changed"); if (!c.check(ok == (how < 4), "unclamped-success", [&] { return S("join returned ", ok, " for how=", how); }) || !ok) return;
    vec3 fa = at(a, 1 - ea), fb = at(b, 1 - eb); int n = (int) r.control_points.size(); if (!c.check((int) r.knots.size() == n + r._degree + 1 && r._degree == p && !r._periodic, "unclamped-well-formed")) return; vec3 s = at(r, 0), e = at(r, 1); ld tol = 1e-8L;
    c.check((gap(s, fa) <= tol && gap(e, fb) <= tol) || (gap(s, fb) <= tol && gap(e, fa) <= tol), "unclamped-free-ends", [&] { return S("joined runs ", G::str(s), " to ", G::str(e), " free ends ", G::str(fa), " ", G::str(fb)); });
}
SUITE(join_closed, 600, 10000) { // closed curves are refused; two arcs sharing both ends make a closed curve
    Rng &g = c.rng; int p = g.i(1, 4); bool rat = g.p(.3); NURBSCurve a = openCurve(g, p, rat), b = openCurve(g, p, rat), r; int how = g.i(0, 2); describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    if (how < 2) { std::vector<vec4> w(p + 2 + g.i(0, 4)); for (auto &v : w) v = vec4(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5), 1); NURBSCurve k(w, p, true); auto &f = how ? a.control_points.front() : a.control_points.back(); vec3 e; k.evaluate(k.interval()[g.i(0, 1)], e); f = vec4(e.x * f.w, e.y * f.w, e.z * f.w, f.w); c.check(!(g.p(.5) ? k.join(a, r) : a.join(k, r)), "closed-joined"); return; }
    b.control_points.front() = a.control_points.back(); b.control_points.back() = a.control_points.front(); if (rat && g.p(.5)) { b.control_points.front() = b.control_points.front() * g.uni(.4, 2.5); b.control_points.back() = b.control_points.back() * g.uni(.4, 2.5); } a.rebuildAABB(); b.rebuildAABB(); uint64_t hb = fp(b); if (!c.check(a.join(b, r), "both-ends")) return; c.check(fp(b) == hb, "second-changed"); int n = (int) r.control_points.size();
    if (!c.check((int) r.knots.size() == n + r._degree + 1 && r._degree == p, "closed-shape", [&] { return S(n, " ", r.knots.size()); })) return; c.check(r._periodic, "closed-recognised"); vec3 s, e; r.evaluate(r.knots[p], s); r.evaluate(r.knots[n], e); c.check(gap(s, e) <= 1e-8L, "closes", [&] { return S(str(s), " ", str(e)); });
}
HARNESS_MAIN
