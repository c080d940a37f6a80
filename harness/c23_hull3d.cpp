// Spatial convex hull: vertices are inputs, once each; contains all inputs (checked with a linear programme solved by
// an independent min-norm-point method); keeps every extreme point; flat inputs give the planar hull.
#include "common.h"
#include "cmmcore/convexhull.h"
using namespace H; using namespace cmmcore;
struct P { ld x, y, z; P operator-(const P &o) const { return {x - o.x, y - o.y, z - o.z}; } P operator+(const P &o) const { return {x + o.x, y + o.y, z + o.z}; } P operator*(ld s) const { return {x * s, y * s, z * s}; } ld dot(const P &o) const { return x * o.x + y * o.y + z * o.z; } P cross(const P &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; } ld norm() const { return sqrtl(dot(*this)); } };
#include "minnorm.h"
static P toP(const vec3 &v) { return {v.x, v.y, v.z}; }
static std::string str(const std::vector<vec3> &v) { std::string r; for (auto &p : v) r += S("(", p.x, ",", p.y, ",", p.z, ")"); return r; }
static ld distTo(const P &q, const std::vector<vec3> &h) { std::vector<P> s; for (auto &p : h) s.push_back(toP(p) - q); return minNormLow(s); }
static void verify(Case &c, const std::vector<vec3> &v, const std::vector<vec3> &r, const std::vector<char> *extreme, ld ext, const char *tag) {
    auto is = [](const vec3 &a, const vec3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; };
    if (!c.check(!r.empty(), S(tag, "empty-hull").c_str())) return;
    for (size_t i = 0; i < r.size(); ++i) { bool in = false; for (auto &q : v) in = in || is(q, r[i]); c.check(in, S(tag, "vertex-not-input"), [&] { return S(r[i].x, ",", r[i].y, ",", r[i].z); }); for (size_t j = 0; j < i; ++j) c.check(!is(r[i], r[j]), S(tag, "repeated-vertex"), [&] { return S(r[i].x, ",", r[i].y, ",", r[i].z); }); }
    for (auto &q : v) { ld d = distTo(toP(q), r); c.check(d <= 4e-6L * ext, S(tag, "point-outside"), [&] { return S("point ", q.x, ",", q.y, ",", q.z, " lies ", d, " outside, extent ", ext, " hull size ", r.size()); }); }
    if (extreme) for (size_t i = 0; i < v.size(); ++i) { bool in = false; for (auto &p : r) in = in || is(p, v[i]); if ((*extreme)[i] == 1) c.check(in, S(tag, "extreme-point-missing"), [&] { return S(v[i].x, ",", v[i].y, ",", v[i].z); }); if ((*extreme)[i] == 2) c.check(!in, S(tag, "interior-point-kept"), [&] { return S(v[i].x, ",", v[i].y, ",", v[i].z); }); }
}
static void rot(Rng &g, std::vector<vec3> &v) { double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); for (auto &p : v) { double x = ca * p.x - sa * p.y, y = sa * p.x + ca * p.y, z = p.z; p = vec3(x, cb * y - sb * z, sb * y + cb * z); } }
static uint64_t fpv(const std::vector<vec3> &v) { uint64_t h = v.size(); for (auto &p : v) h = hcomb(h, hd(p.x) ^ hd(p.z)); return h; }
static ld extent(const std::vector<vec3> &v) { ld e = 0; for (auto &p : v) e = std::max(e, (toP(p) - toP(v[0])).norm()); return e; }
static void classify(const std::vector<vec3> &v, std::vector<char> &ex, ld ext) { // 1: clearly extreme, 2: clearly interior, 0: neither
    ex.assign(v.size(), 0); if (v.size() > 60) return; for (size_t i = 0; i < v.size(); ++i) { std::vector<vec3> o; for (size_t j = 0; j < v.size(); ++j) if (j != i) o.push_back(v[j]); ld d = distTo(toP(v[i]), o); if (d > 1e-5L * ext) ex[i] = 1; }
}
SUITE(solid, 700, 20000) {
    Rng &g = c.rng; int n = g.p(.1) ? g.i(60, 150) : g.i(4, 40), kind = g.i(0, 6); double sc = g.p(.5) ? 1 : pow(10, g.uni(-6, 6)); std::vector<vec3> v; vec3 off = g.p(.3) ? vec3(g.uni(-50, 50), g.uni(-50, 50), g.uni(-50, 50)) : vec3(0, 0, 0);
    if (kind == 0) for (int i = 0; i < n; ++i) v.emplace_back(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)); // box
    else if (kind == 1) for (int i = 0; i < n; ++i) { vec3 p(g.gauss(), g.gauss(), g.gauss()); p.unitize(); v.push_back(p); } // all extreme
    else if (kind == 2) for (int i = 0; i < n; ++i) v.emplace_back(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)); // coplanar facets, duplicates
    else if (kind == 3) { int a = g.i(2, 5), b = g.i(2, 5); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) v.emplace_back(i, j, .3 * (i - 1.5) * (i - 1.5) - .2 * j * j + .1 * g.gauss()); } // control nets
    else if (kind == 4) for (int i = 0; i < n; ++i) v.emplace_back(g.gauss(), g.gauss(), g.gauss() * 1e-3); // thin
    else if (kind == 5) for (int i = 0; i < n; ++i) v.emplace_back(g.gauss(), g.gauss() * .01, g.gauss() * .01); // needle
    else { for (int i = 0; i < 8; ++i) v.emplace_back(i & 1, i >> 1 & 1, i >> 2 & 1); for (int i = 0; i < n; ++i) v.emplace_back(g.u(), g.u(), g.p(.5) ? g.u() : g.i(0, 1)); } // cube with points on faces
    for (auto &p : v) p = p + off; if (g.p(.4)) rot(g, v); for (auto &p : v) p = p * sc; g.shuffle(v); c.d << str(v); std::vector<char> ex; ld ext = extent(v); classify(v, ex, ext); c.nontrivial(fpv(v)); auto before = v; std::vector<vec3> r; if (g.p(.5)) convex_hull3d(v, r); else { auto k = convex_hull(v, r); if (kind < 2 && n > 10) c.check(k == ConvexHullResult::VOLUME, "kind"); } verify(c, v, r, &ex, ext, ""); bool same = before.size() == v.size(); for (size_t i = 0; same && i < v.size(); ++i) same = v[i].x == before[i].x && v[i].y == before[i].y && v[i].z == before[i].z; c.check(same, "input-changed");
}
SUITE(flat, 700, 20000) { // planar, collinear and coincident sets, axis-aligned or tilted (coplanar up to rounding)
    Rng &g = c.rng; int n = g.i(1, 30), kind = g.i(0, 4); double sc = g.p(.5) ? 1 : pow(10, g.uni(-5, 5)); std::vector<vec3> v; for (int i = 0; i < n; ++i) { if (kind == 0) v.emplace_back(g.uni(-1, 1), g.uni(-1, 1), 0); else if (kind == 1) v.emplace_back(g.i(-2, 2), g.i(-2, 2), 0); else if (kind == 2) v.emplace_back(0, g.uni(-1, 1), g.uni(-1, 1)); else if (kind == 3) { double t = g.uni(-1, 1); v.emplace_back(t, 2 * t, -t); } else v.emplace_back(.5, .25, 1); }
    if (g.p(.6)) rot(g, v); vec3 off = g.p(.4) ? vec3(g.uni(-9, 9), g.uni(-9, 9), g.uni(-9, 9)) : vec3(0, 0, 0); for (auto &p : v) p = (p + off) * sc; c.d << "kind " << kind << " " << str(v); ld ext = extent(v); if (ext < 1e-12L * sc) ext = sc * 1e-4L; std::vector<char> ex; classify(v, ex, ext); if (n > 2) c.nontrivial(fpv(v)); std::vector<vec3> r; if (g.p(.5)) convex_hull3d(v, r); else { auto k = convex_hull(v, r); ld ar = 0; for (auto &p : v) for (auto &q : v) ar = std::max(ar, (toP(p) - toP(v[0])).cross(toP(q) - toP(v[0])).norm()); ld e2 = extent(v); auto is = [&](ConvexHullResult w) { c.check(k == w, "flat-kind", [&] { return S("got ", (int) k, " expected ", (int) w); }); }; if (e2 == 0) is(ConvexHullResult::POINT); else if (e2 > 1e-4L * sc) { if (ar > 1e-3L * e2 * e2) is(ConvexHullResult::FLAT); else if (ar < 1e-9L * e2 * e2) is(ConvexHullResult::LINE); } } verify(c, v, r, &ex, ext, "flat-");
}
SUITE(nearly_flat, 400, 15000) { // thickness anywhere between rounding and visible: no failure, containment
    Rng &g = c.rng; int n = g.i(4, 30), kind = g.i(0, 2); double t = pow(10, g.uni(-17, -3)); std::vector<vec3> v; for (int i = 0; i < n; ++i) { if (kind == 0) v.emplace_back(g.uni(-1, 1), g.uni(-1, 1), t * g.uni(-1, 1)); else if (kind == 1) v.emplace_back(g.i(-2, 2), g.i(-2, 2), t * g.i(-1, 1)); else v.emplace_back(g.uni(-1, 1), t * g.uni(-1, 1), t * g.uni(-1, 1) * pow(10, g.uni(-3, 0))); } if (g.p(.5)) rot(g, v); c.d << "thickness " << t << " " << str(v); c.nontrivial(fpv(v)); std::vector<vec3> r; if (g.p(.5)) convex_hull3d(v, r); else convex_hull(v, r); verify(c, v, r, nullptr, std::max(extent(v), (ld) 1e-3), "nearly-flat-");
}
SUITE(clusters, 250, 10000) { // points at distances of many magnitudes from each other
    Rng &g = c.rng; int n = g.i(4, 30), kind = g.i(0, 1); std::vector<vec3> v; for (int i = 0; i < 4; ++i) v.emplace_back(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)); while ((int) v.size() < n + 4) { auto b = g.pick(v); double s = pow(10, g.uni(-12, 0)); if (kind) v.push_back(b + vec3(g.gauss(), g.gauss(), g.gauss()) * s); else { auto q = g.pick(v); v.push_back(b + (q - b) * g.u() + vec3(g.gauss(), g.gauss(), g.gauss()) * (s * .01)); } } g.shuffle(v); c.d << str(v); c.nontrivial(fpv(v)); std::vector<vec3> r; if (g.p(.5)) convex_hull3d(v, r); else convex_hull(v, r); verify(c, v, r, nullptr, extent(v), "clusters-");
}
HARNESS_MAIN
