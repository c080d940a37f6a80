// Polygon predicates against exact integer geometry.
#include "common.h"
#include <numeric>
#include "cmmcore/polygon.h"
using namespace H; using namespace cmmcore;
typedef long long ll; typedef __int128 xl; struct I { ll x, y; };
static xl cr(I a, I b, I c) { return (xl) (b.x - a.x) * (c.y - a.y) - (xl) (b.y - a.y) * (c.x - a.x); }
static int sg(xl v) { return (v > 0) - (v < 0); }
static bool onSeg(I a, I b, I p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool cross(I a, I b, I c, I d) { int s1 = sg(cr(a, b, c)), s2 = sg(cr(a, b, d)), s3 = sg(cr(c, d, a)), s4 = sg(cr(c, d, b)); if (s1 * s2 < 0 && s3 * s4 < 0) return true; return onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b); }
static bool simple(const std::vector<I> &p) { size_t n = p.size(); if (n < 3) return false; for (size_t i = 0; i < n; ++i) { I a = p[i], b = p[(i + 1) % n]; if (a.x == b.x && a.y == b.y) return false; for (size_t j = i + 1; j < n; ++j) { I c = p[j], d = p[(j + 1) % n]; if (j == i + 1) { if (onSeg(a, b, d) || onSeg(c, d, a)) return false; } else if ((j + 1) % n == i) { if (onSeg(c, d, b) || onSeg(a, b, c)) return false; } else if (cross(a, b, c, d)) return false; } } return true; }
static int winding(const std::vector<I> &p, I q) { int w = 0; size_t n = p.size(); for (size_t i = 0; i < n; ++i) { I a = p[i], b = p[(i + 1) % n]; if (a.y <= q.y) { if (b.y > q.y && cr(a, b, q) > 0) ++w; } else if (b.y <= q.y && cr(a, b, q) < 0) --w; } return w; }
static bool onB(const std::vector<I> &p, I q) { for (size_t i = 0; i < p.size(); ++i) if (onSeg(p[i], p[(i + 1) % p.size()], q)) return true; return false; }
static polygon2 toD(const std::vector<I> &p, double s, I o = {0, 0}) { polygon2 r; for (auto &v : p) r.emplace_back((v.x + o.x) * s, (v.y + o.y) * s); return r; }
static std::string str(const std::vector<I> &p) { std::string r = "{"; for (auto &v : p) r += S("(", v.x, ",", v.y, ")"); return r + "}"; }
static uint64_t fp(const std::vector<I> &p) { uint64_t h = p.size(); for (auto &v : p) h = hcomb(hcomb(h, v.x), v.y); return h; }
// random simple polygon: star-shaped, comb, staircase/rectilinear, or 2-opt-like rejection of a random loop
static std::vector<I> gen(Rng &g) {
    for (;;) { std::vector<I> p; int kind = g.i(0, 4), n = g.i(3, 14); ll R = g.p(.5) ? 10 : (g.p(.5) ? 100 : 20000);
        if (kind == 0) { for (int i = 0; i < n; ++i) { double a = 6.283185307 * (i + g.u() * .8) / n, r = R * g.uni(.15, 1); p.push_back({llround(r * cos(a)), llround(r * sin(a))}); } }
        else if (kind == 1) { int t = g.i(2, 6); for (int i = 0; i < t; ++i) { p.push_back({4 * i, 0}); p.push_back({4 * i, g.i(2, 12)}); p.push_back({4 * i + 2, g.p(.5) ? p.back().y : g.i(2, 12)}); p.push_back({4 * i + 2, 0}); } p.push_back({4 * t, 0}); p.push_back({4 * t, -3}); p.push_back({0, -3}); }
        else if (kind == 2) { for (int i = 0; i < std::min(n, 7); ++i) p.push_back({g.i(-6, 6), g.i(-6, 6)}); }
        else if (kind == 3) { ll x = 0, y = 0; int t = g.i(2, 6); p.push_back({0, 0}); for (int i = 0; i < t; ++i) { x += g.i(1, 4); p.push_back({x, y}); y += g.i(1, 4); p.push_back({x, y}); } p.push_back({0, y}); }
        else { ll y = 0; std::vector<I> l, r; int t = g.i(2, 6); for (int i = 0; i < t; ++i) { l.push_back({-g.i(1, 9), y}); r.push_back({g.i(1, 9), y + g.i(0, 1)}); y += g.i(2, 5); } for (auto &v : r) p.push_back(v); std::reverse(l.begin(), l.end()); for (auto &v : l) p.push_back(v); }
        if (g.p(.5)) for (auto &v : p) std::swap(v.x, v.y); if (g.p(.5)) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + g.i(0, (int) p.size() - 1), p.end()); if (simple(p)) return p; } }
SUITE(point_in_polygon, 6000, 400000) {
    Rng &g = c.rng; auto p = gen(g); double sc = ldexp(1, g.i(-20, 20)); auto d = toD(p, sc * 2); c.d << str(p) << " scale " << sc; c.nontrivial(fp(p)); ll x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto &v : p) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); } std::vector<I> p2; for (auto &v : p) p2.push_back({v.x * 2, v.y * 2});
    auto q = d; std::reverse(q.begin(), q.end()); for (int k = 0; k < 60; ++k) { I t{2 * x0 - 2 + (ll) (g.u() * (2 * (x1 - x0) + 5)), 2 * y0 - 2 + (ll) (g.u() * (2 * (y1 - y0) + 5))}; if (k % 4 == 0) { t.y = 2 * g.pick(p).y; } if (k % 4 == 1) { t.x = 2 * g.pick(p).x; } if (k % 8 == 2) { size_t i = g.i(0, (int) p.size() - 1); I a = p2[i], b = p2[(i + 1) % p.size()]; double f = g.u(); t = {a.x + llround(f * (b.x - a.x)) + g.i(-1, 1), a.y + llround(f * (b.y - a.y)) + g.i(-1, 1)}; } if (onB(p2, t)) continue; bool in = winding(p2, t) != 0; vec2 v(t.x * sc, t.y * sc); bool r1 = pointInPolygon2D(d, v), r2 = pointInPolygon2D(q, v); c.check(r1 == in, "classification", [&] { return S("point ", t.x / 2., ",", t.y / 2., " inside ", in, " reported ", r1); }); c.check(r2 == in, "classification-reversed", [&] { return S("point ", t.x / 2., ",", t.y / 2., " inside ", in, " reported ", r2); }); }
}
static std::vector<I> convex(Rng &g) { for (;;) { std::vector<I> s; int n = g.i(3, 12), R = g.p(.7) ? 6 : 200; for (int i = 0; i < n; ++i) s.push_back({g.i(-R, R), g.i(-R, R)}); std::sort(s.begin(), s.end(), [](I a, I b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); s.erase(std::unique(s.begin(), s.end(), [](I a, I b) { return a.x == b.x && a.y == b.y; }), s.end()); n = s.size(); if (n < 3) continue; std::vector<I> h(2 * n); int k = 0; bool keep = g.p(.2); for (int i = 0; i < n; ++i) { while (k >= 2 && (keep ? cr(h[k - 2], h[k - 1], s[i]) < 0 : cr(h[k - 2], h[k - 1], s[i]) <= 0)) --k; h[k++] = s[i]; } for (int i = n - 2, t = k + 1; i >= 0; --i) { while (k >= t && (keep ? cr(h[k - 2], h[k - 1], s[i]) < 0 : cr(h[k - 2], h[k - 1], s[i]) <= 0)) --k; h[k++] = s[i]; } h.resize(k - 1); xl ar = 0; for (size_t i = 1; i + 1 < h.size(); ++i) ar += cr(h[0], h[i], h[i + 1]); if (ar > 0 && h.size() >= 3) return h; } }
// exact classification: 0 disjoint, 1 share boundary only, 2 interiors overlap
static int classify(const std::vector<I> &a, const std::vector<I> &b) { bool touch = false; for (int s = 0; s < 2; ++s) { auto &p = s ? b : a; for (size_t i = 0; i < p.size(); ++i) { I u = p[i], v = p[(i + 1) % p.size()]; xl nx = v.y - u.y, ny = u.x - v.x, a0 = 1e18, a1 = -1e18, b0 = 1e18, b1 = -1e18; for (auto &q : a) { xl t = nx * q.x + ny * q.y; a0 = std::min(a0, t); a1 = std::max(a1, t); } for (auto &q : b) { xl t = nx * q.x + ny * q.y; b0 = std::min(b0, t); b1 = std::max(b1, t); } if (a1 < b0 || b1 < a0) return 0; if (a1 == b0 || b1 == a0) touch = true; } } return touch ? 1 : 2; }
SUITE(relationship, 8000, 500000) {
    Rng &g = c.rng; auto a = convex(g), b = convex(g); int mode = g.i(0, 5); I o{0, 0}; if (mode == 1) { I p = g.pick(a), q = g.pick(b); o = {p.x - q.x, p.y - q.y}; } // vertex on vertex
    if (mode == 2) { size_t i = g.i(0, (int) a.size() - 1); I u = a[i], v = a[(i + 1) % a.size()], q = g.pick(b); ll gg = std::gcd(std::llabs(v.x - u.x), std::llabs(v.y - u.y)); ll t = g.i(0, (int) gg); o = {u.x + (v.x - u.x) / gg * t - q.x, u.y + (v.y - u.y) / gg * t - q.y}; } // vertex on edge
    if (mode == 3) { for (auto &q : b) q = {-q.x, -q.y}; b.clear(); size_t i = g.i(0, (int) a.size() - 1); I u = a[i], v = a[(i + 1) % a.size()]; for (auto &q : a) b.push_back({u.x + v.x - q.x, u.y + v.y - q.y}); } // point reflection: shared edge
    if (mode == 4) o = {g.i(-14, 14), g.i(-14, 14)}; if (mode == 5) { for (auto &q : a) q = {q.x * 20, q.y * 20}; }
    for (auto &q : b) q = {q.x + o.x, q.y + o.y}; if (g.p(.5)) std::reverse(a.begin(), a.end()); if (g.p(.5)) std::reverse(b.begin(), b.end()); std::rotate(b.begin(), b.begin() + g.i(0, (int) b.size() - 1), b.end()); int want = classify(a, b); for (auto *e : {&a, &b}) if (g.p(.1)) { size_t i = g.i(0, (int) e->size() - 1); I v = (*e)[i]; e->insert(e->begin() + i, v); } double sc = ldexp(1, g.i(-20, 20)); c.d << "mode " << mode << " expected " << want << " " << str(a) << str(b); c.nontrivial(hcomb(fp(a), fp(b))); auto da = toD(a, sc), db = toD(b, sc); auto code = [](PolygonRelationship2D r) { return r == PolygonRelationship2D::DISTANCE ? 0 : r == PolygonRelationship2D::TOUCH ? 1 : 2; }; int r1 = code(polygonRelationship2D(da, db)), r2 = code(polygonRelationship2D(db, da)); auto msg = [&] { return S("expected ", want, " reported ", r1, " swapped ", r2); }; c.check(r1 == want, S("relation-", want, "-as-", r1), msg); c.check(r1 == r2, "asymmetric", msg);
}
SUITE(normals, 2000, 60000) {
    Rng &g = c.rng; auto p = gen(g); double sc = ldexp(1, g.i(-10, 10)); auto d = toD(p, sc); c.d << str(p) << " scale " << sc; c.nontrivial(fp(p)); bool nz = g.p(.5); std::vector<vec2> n; polygonNormals(d, n, nz); if (!c.check(n.size() == d.size(), "count")) return; UnorderedNormal2Set s; polygonUniqueNormals(d, s, nz); c.check(s.size() <= d.size(), "unique-count"); 
    auto par = [](const vec2 &a, double x, double y) { return std::abs(a.x * y - a.y * x) <= 1e-12 * std::hypot(a.x, a.y) * std::hypot(x, y); };
    for (size_t i = 0; i < d.size(); ++i) { size_t j = (i + 1) % d.size(); double ex = d[j].x - d[i].x, ey = d[j].y - d[i].y, L = nz ? 1 : std::hypot(ex, ey); c.check(std::abs(n[i].x * ex + n[i].y * ey) <= 1e-12 * L * std::hypot(ex, ey) && std::abs(n[i].length() - L) <= 1e-12 * L, "normal", [&] { return S("edge ", i, " (", ex, ",", ey, ") normal (", n[i].x, ",", n[i].y, ")"); }); bool f = false; for (auto &q : s) if (par(q, ey, -ex)) f = true; c.check(f, "edge-without-normal", [&] { return S("edge ", i); }); }
    for (auto &q : s) { bool f = false; for (size_t i = 0; i < d.size(); ++i) { size_t j = (i + 1) % d.size(); if (par(q, d[j].y - d[i].y, d[i].x - d[j].x)) f = true; } c.check(f, "foreign-normal"); if (nz) c.check(std::abs(q.length() - 1) < 1e-12, "not-unit"); c.check(contains(s, q), "contains"); }
}
SUITE(repeated_vertices, 800, 20000) { // a repeated vertex adds an edge without a direction: the normals stay those of the polygon
    Rng &g = c.rng; auto p = gen(g); auto d = toD(p, 1), e = d; int k = g.i(1, 3); for (int t = 0; t < k; ++t) { size_t i = g.i(0, (int) e.size() - 1); vec2 v = e[i]; e.insert(e.begin() + i, v); } if (g.p(.2)) { vec2 v = e[0]; e.push_back(v); } c.d << str(p) << " repeats " << e.size() - d.size(); c.nontrivial(fp(p)); bool nz = g.p(.5); UnorderedNormal2Set s, t; polygonUniqueNormals(d, s, nz); polygonUniqueNormals(e, t, nz);
    for (auto &q : t) c.check(std::isfinite(q.x) && std::isfinite(q.y) && q.length() > 0, "not-a-direction"); c.check(s.size() == t.size(), "normals-differ", [&] { return S(s.size(), " vs ", t.size()); });
}
HARNESS_MAIN
