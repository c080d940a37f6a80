// Box algebra against the componentwise definition on closed intervals.
#include "common.h"
#include "cmmcore/aabb.h"
#include "cmmcore/bvh.hpp"
#include "cmmcore/separability.h"
using namespace H; using namespace cmmcore;
static std::string str(const AABB &b) { return S("[(", b.min.x, ",", b.min.y, ",", b.min.z, ")(", b.max.x, ",", b.max.y, ",", b.max.z, ")]"); }
static double co(Rng &g, int k) { return k == 0 ? g.uni(-10, 10) : k == 1 ? g.i(-2, 2) : k == 2 ? g.gauss() * pow(10, g.uni(-8, 8)) : g.i(-1, 1) * 1e-300; }
static AABB box(Rng &g, int k) { vec3 a(co(g, k), co(g, k), co(g, k)), b(co(g, k), co(g, k), co(g, k)); if (g.p(.15)) b = a; if (g.p(.15)) b.y = a.y; return AABB(vec3(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), vec3(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z))); }
static bool same(const AABB &a, const AABB &b) { for (int k = 0; k < 3; ++k) if (a.min[k] != b.min[k] || a.max[k] != b.max[k]) return false; return true; }
SUITE(pairs, 4000, 150000) {
    Rng &g = c.rng; int k = g.i(0, 3); AABB a = box(g, k), b = g.p(.1) ? a : box(g, k); if (g.p(.25)) { int ax = g.i(0, 2); double w = b.max[ax] - b.min[ax]; b.min[ax] = a.max[ax]; b.max[ax] = std::max(a.max[ax], a.max[ax] + w); if (g.p(.5)) { b.min[ax] = std::nextafter(a.max[ax], INFINITY); b.max[ax] = std::max(b.max[ax], b.min[ax]); } } if (g.p(.1)) { for (int ax = 0; ax < 3; ++ax) { b.min[ax] = a.min[ax] + (a.max[ax] - a.min[ax]) * .25; b.max[ax] = std::max(b.min[ax], a.min[ax] + (a.max[ax] - a.min[ax]) * .5); } } if (g.p(.5)) std::swap(a, b);
    c.d << str(a) << str(b); uint64_t h = 0; for (int ax = 0; ax < 3; ++ax) h = hcomb(h, hd(a.min[ax]) ^ hd(b.max[ax]) * 3); c.nontrivial(h);
    bool m = true; AABB I = a, M = a; for (int ax = 0; ax < 3; ++ax) { m = m && a.min[ax] <= b.max[ax] && b.min[ax] <= a.max[ax]; I.min[ax] = a.min[ax] > b.min[ax] ? a.min[ax] : b.min[ax]; I.max[ax] = a.max[ax] < b.max[ax] ? a.max[ax] : b.max[ax]; M.min[ax] = a.min[ax] < b.min[ax] ? a.min[ax] : b.min[ax]; M.max[ax] = a.max[ax] > b.max[ax] ? a.max[ax] : b.max[ax]; }
    c.check(a.intersects(b) == m && b.intersects(a) == m, "intersects", [&] { return S("got ", a.intersects(b), b.intersects(a), " expected ", m); }); AABB r, r2; bool q = a.intersection(b, r), q2 = b.intersection(a, r2); c.check(q == m && q2 == m, "intersection-flag"); if (m) { c.check(same(r, I) && same(r2, I), "intersection-box", [&] { return S(str(r), " expected ", str(I)); }); } c.check(same(a.merge(b), M) && same(b.merge(a), M), "merge", [&] { return S(str(a.merge(b)), " expected ", str(M)); }); c.check(same(a.merge(a), a) && same(AABB().merge(a), a) && same(a.merge(AABB()), a), "merge-identity"); c.check(!AABB().intersects(a) && !a.intersects(AABB()), "empty-box-intersects");
    ld v = 1; for (int ax = 0; ax < 3; ++ax) v *= (ld) a.max[ax] - a.min[ax]; c.check(fabsl(a.volume() - v) <= 1e-14L * v + 1e-300L, "volume", [&] { return S(a.volume(), " expected ", v); }); auto e = compute_extents(a); for (int ax = 0; ax < 3; ++ax) c.check(e[ax] == a.max[ax] - a.min[ax], "extents");
    AABB A = a, B = b; c.check(same(A, a) && same(B, b), "operands-changed");
}
SUITE(points, 1500, 50000) {
    Rng &g = c.rng; int k = g.i(0, 3), n = g.i(1, 12); std::vector<vec3> p, q; for (int i = 0; i < n; ++i) p.emplace_back(co(g, k), co(g, k), co(g, k)); int n2 = g.i(1, 8); for (int i = 0; i < n2; ++i) q.emplace_back(co(g, k) + (k == 0 ? g.i(0, 1) * 12 : 0), co(g, k), co(g, k)); uint64_t h = n; for (auto &x : p) { c.d << S("(", x.x, ",", x.y, ",", x.z, ")"); h = hcomb(h, hd(x.x)); } c.nontrivial(h);
    auto hull = [](const std::vector<vec3> &v) { AABB r(v[0], v[0]); for (auto &x : v) for (int ax = 0; ax < 3; ++ax) { if (x[ax] < r.min[ax]) r.min[ax] = x[ax]; if (x[ax] > r.max[ax]) r.max[ax] = x[ax]; } return r; };
    AABB w = hull(p), w2 = hull(q), a(p), b; for (auto &x : p) b.expand(x); c.check(same(a, w), "from-points", [&] { return S(str(a), " expected ", str(w)); }); c.check(same(b, w), "expand", [&] { return S(str(b), " expected ", str(w)); }); for (auto &x : p) { auto t = a; t.expand(x); c.check(same(t, a), "expand-inside"); c.check(a.intersects(AABB(x, x)), "contains-own-point"); }
    bool sep = false; for (int ax = 0; ax < 3; ++ax) sep = sep || w.max[ax] < w2.min[ax] || w2.max[ax] < w.min[ax]; c.check(AABBTest(p, q) == sep && AABBTest(q, p) == sep, "box-separability", [&] { return S("got ", AABBTest(p, q), " expected ", sep); });
}
HARNESS_MAIN
