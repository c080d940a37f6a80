// Knot insertion in either direction leaves the surface unchanged.
#include "gen.h"
using namespace G;
static ld relW(const NURBSSurface &k) { ld a = 1e9L, b = 0; for (auto &row : k._control_points) for (auto &v : row) { a = std::min<ld>(a, v.w); b = std::max<ld>(b, v.w); } return b / a; }
SUITE(insert, 2000, 50000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 5; o.wild = .2; o.open = .15; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); auto dom = s._interval; ld tol = 1e-10L * scaleOf(r) * relW(s) * 8;
    int steps = g.i(1, 5);
    for (int q = 0; q < steps; ++q) {
        int dir = g.i(0, 1), p = s._degree[dir]; auto &K = dir ? s._knots_v : s._knots_u; auto &O = dir ? s._knots_u : s._knots_v; int n = (int) s._size[dir] - 1;
        double t = interior(g, K, p, n); if (nearKnot(K, t, 1e-11) || t - K[p] < 1e-11 || K[n + 1] - t < 1e-11) continue; int room = p - mult(K, t); if (room <= 0) continue; int cnt = g.i(1, room), api = g.i(0, 1); c.d << " insert dir " << dir << " at " << t << " x" << cnt;
        auto before = K, other = O; auto shape = s._size; auto deg = s._degree;
        double t0 = t; t = jitter(g, before, t); if (api == 0) s.insert_knot(t, dir, cnt); else if (dir == 0) s.insert_knot_u(t, cnt); else s.insert_knot_v(t, cnt); t = t0;
        auto want = before; for (int i = 0; i < cnt; ++i) want.push_back(t); std::sort(want.begin(), want.end()); shape[dir] += cnt;
        c.check(K == want, "knot-vector", [&] { return S("dir ", dir, " inserting ", t, " x", cnt); }); c.check(O == other && s._degree == deg, "other-direction");
        bool grid = s._size == shape && s._control_points.size() == shape[0]; for (auto &row : s._control_points) grid = grid && row.size() == shape[1];
        c.check(grid, "count"); c.check(s._interval == dom && s.interval() == dom, "domain"); if (!grid) return;
        for (int e = 0; e < 8; ++e) {
            auto at = [&](const std::vector<double> &U, int d) { double a = U[d], b = U[U.size() - d - 1]; return g.p(.2) ? std::min(b, std::max(a, g.pick(U))) : g.uni(a, b); }; double u = at(s._knots_u, s._degree[0]), v = at(s._knots_v, s._degree[1]); vec3 a; s.evaluate(u, v, a); R::P3 x = R::eval(r, u, v);
            c.check(finite(a) && gap(a, x) <= tol, "moved", [&] { return S("u=", u, " v=", v, " moved to ", str(a), " from ", str(x)); });
        }
        if (c.failed) return;
    }
}
HARNESS_MAIN
