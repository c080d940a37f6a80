// Surface evaluation against the tensor-product rational definition.
#include "gen.h"
using namespace G;
static void checkSurf(Case &c, const NURBSSurface &s, int extra, bool clamped = true) {
    Rng &g = c.rng; auto r = toRef(s); ld sc = scaleOf(r);
    auto us = params(g, s._knots_u, s._degree[0], r.nu(), extra), vs = params(g, s._knots_v, s._degree[1], r.nv(), extra);
    int cnt = 0; g.shuffle(us); g.shuffle(vs);
    for (double u : us) for (double v : vs) { if (cnt++ > 40) break;
        R::P3 e = R::eval(r, u, v); vec3 a(9, 9, 9); s.evaluate(u, v, a);
        c.check(finite(a) && gap(a, e) <= 1e-10L * sc, "value", [&] { return S("uv=", u, ",", v, " got ", str(a), " expected ", str(e)); }); }
    for (int k = 0; clamped && k < 4; ++k) { auto &q = r.P[k & 1 ? r.nu() : 0][k & 2 ? r.nv() : 0]; vec3 a; auto iv = s.interval(); s.evaluate(iv[0][k & 1], iv[1][(k >> 1) & 1], a);
        c.check(gap(a, R::P3{q.x / q.w, q.y / q.w, q.z / q.w}) <= 1e-10L * sc, "corner", [&] { return S("corner ", k, " ", str(a)); }); }
}
static void views(Case &c, const NURBSSurface &s) {
    auto sz = s.shape(); auto &cp = s.control_points(); auto flat = s.control_points_flat(); auto f3 = s.control_points_flat3d(); auto g3 = s.control_points3d();
    std::vector<vec3> f3b(3); s.control_points_flat3d(f3b);
    bool ok = cp.size() == sz[0] && flat.size() == sz[0] * sz[1] && f3.size() == flat.size() && g3.size() == sz[0] && f3b.size() == flat.size();
    for (size_t i = 0; ok && i < sz[0]; ++i) for (size_t j = 0; ok && j < sz[1]; ++j) { auto &q = cp[i][j]; auto &f = flat[i * sz[1] + j];
        ok = f.x == q.x && f.y == q.y && f.z == q.z && f.w == q.w; R::P3 e{(ld) q.x / q.w, (ld) q.y / q.w, (ld) q.z / q.w};
        ok = ok && gap(f3[i * sz[1] + j], e) < 1e-9L * (1 + e.norm()) && gap(g3[i][j], e) < 1e-9L * (1 + e.norm()) && gap(f3b[i * sz[1] + j], e) < 1e-9L * (1 + e.norm()); }
    c.check(ok, "control-point-views");
    c.check(s.interval() == valid(s), "interval");
}
SUITE(eval_custom, 3000, 60000) { SurfOpt o; o.maxDeg = c.rng.p(.1) ? 8 : 4; o.wild = .4; auto s = surface(c.rng, o); describe(c, s); c.nontrivial(fp(s)); checkSurf(c, s, 4); views(c, s); }
SUITE(eval_unclamped, 600, 12000) { SurfOpt o; o.wild = .2; o.open = 1; auto s = surface(c.rng, o); describe(c, s); c.nontrivial(fp(s)); checkSurf(c, s, 4, false); views(c, s); }
SUITE(eval_ctor, 1200, 20000) {
    Rng &g = c.rng; int p = g.i(1, 4), q = g.i(1, 4), n = p + 1 + g.i(0, 4), m = q + 1 + g.i(0, 4); std::vector<std::vector<vec3>> a(n, std::vector<vec3>(m)); std::vector<std::vector<vec4>> b(n, std::vector<vec4>(m));
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { a[i][j] = vec3(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)); b[i][j] = vec4(a[i][j].x, a[i][j].y, a[i][j].z, 1); }
    auto U = knots(g, n, p, g.i(0, 3), p), V = knots(g, m, q, g.i(0, 3), q); int how = g.i(0, 2);
    NURBSSurface s = how == 0 ? NURBSSurface(a, {p, q}) : how == 1 ? NURBSSurface(a, {p, q}, U, V) : NURBSSurface(b, {p, q}, U);
    describe(c, s); c.nontrivial(fp(s)); checkSurf(c, s, 3); views(c, s);
    auto open = [](const std::vector<double> &k, int n, int p) { bool ok = (int) k.size() == n + p + 1; for (int i = 0; ok && i < n + p + 1; ++i) ok = k[i] == (i <= p ? 0 : i >= n ? n - p : i - p); return ok; };
    if (how == 0) c.check(open(s.knots_u(), n, p), "default-knots-u"); else c.check(s.knots_u() == U, "given-knots-u");
    if (how != 1) c.check(open(s.knots_v(), m, q), "default-knots-v"); else c.check(s.knots_v() == V, "given-knots-v");
    c.check(s._degree[0] == p && s._degree[1] == q && s.shape()[0] == (size_t) n && s.shape()[1] == (size_t) m, "shape");
    if (how == 0) { bool threw = false; try { NURBSSurface e(std::vector<std::vector<vec4>>{}, {1, 1}); } catch (const std::invalid_argument &) { threw = true; } c.check(threw, "empty-rejected"); }
}
// Default knots put in place of custom ones; constructors given only one knot vector.
SUITE(regenerate, 600, 12000) {
    Rng &g = c.rng; auto s = surface(g); describe(c, s); c.nontrivial(fp(s)); auto P = s.control_points(); bool same = P.size() == s._control_points.size(); for (size_t i = 0; same && i < P.size(); ++i) for (size_t j = 0; j < P[i].size(); ++j) same = same && P[i][j].x == s._control_points[i][j].x && P[i][j].w == s._control_points[i][j].w; c.check(same, "control-points");
    auto t = s; bool u = g.p(.6), v = !u || g.p(.5); if (u) t.generate_knots_u(); if (v) t.generate_knots_v(); NURBSSurface w(s._control_points, s._degree, u ? std::vector<double>{} : s._knots_u, v ? std::vector<double>{} : s._knots_v); c.check(t._knots_u == w._knots_u && t._knots_v == w._knots_v && t._interval == w._interval, "regenerated", [&] { return S("interval ", t._interval[0][0], " ", t._interval[0][1], " ", t._interval[1][0], " ", t._interval[1][1]); }); checkSurf(c, t, 2); views(c, t); checkSurf(c, w, 2);
    std::vector<std::vector<vec3>> a; for (auto &r : s._control_points) { a.emplace_back(); for (auto &x : r) a.back().push_back(vec3(x.x, x.y, x.z)); } NURBSSurface x(a, s._degree, u ? std::vector<double>{} : s._knots_u, v ? std::vector<double>{} : s._knots_v); c.check(x._knots_u == w._knots_u && x._knots_v == w._knots_v && x._interval == w._interval, "from-points", [&] { return S(x._knots_u.size(), " ", x._knots_v.size()); }); checkSurf(c, x, 2); bool one = true; for (auto &r : x._control_points) for (auto &q : r) one = one && q.w == 1; c.check(one, "unit-weights");
}
// Interpreting the same geometry with u and v exchanged gives the exchanged surface.
SUITE(transpose, 600, 10000) {
    auto s = surface(c.rng); describe(c, s); c.nontrivial(fp(s)); auto sz = s.shape(); std::vector<std::vector<vec4>> t(sz[1], std::vector<vec4>(sz[0]));
    for (size_t i = 0; i < sz[0]; ++i) for (size_t j = 0; j < sz[1]; ++j) t[j][i] = s._control_points[i][j];
    NURBSSurface w(t, {s._degree[1], s._degree[0]}, s._knots_v, s._knots_u); ld sc = scaleOf(toRef(s));
    for (int k = 0; k < 10; ++k) { double u = c.rng.uni(s._interval[0][0], s._interval[0][1]), v = c.rng.uni(s._interval[1][0], s._interval[1][1]); vec3 a, b; s.evaluate(u, v, a); w.evaluate(v, u, b); c.check(gap(a, b) <= 1e-10L * sc, "transpose", [&] { return S(u, ",", v, str(a), str(b)); }); }
}
HARNESS_MAIN
