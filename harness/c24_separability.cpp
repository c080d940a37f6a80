// Separability tests against constructed intersections (common point of both hulls) and a certified min-norm oracle.
#include "common.h"
#include "cmmcore/separability.h"
using namespace H; using namespace cmmcore;
struct P { ld x, y, z; P operator-(const P &o) const { return {x - o.x, y - o.y, z - o.z}; } P operator+(const P &o) const { return {x + o.x, y + o.y, z + o.z}; } P operator*(ld s) const { return {x * s, y * s, z * s}; } ld dot(const P &o) const { return x * o.x + y * o.y + z * o.z; } ld norm() const { return sqrtl(dot(*this)); } };
#include "minnorm.h"
static P toP(const vec3 &v) { return {v.x, v.y, v.z}; }
static std::string str(const std::vector<vec3> &v) { std::string r = "{"; for (auto &p : v) r += S("(", p.x, ",", p.y, ",", p.z, ")"); return r + "}"; }
static std::string str2(const std::vector<vec2> &v) { std::string r = "{"; for (auto &p : v) r += S("(", p.x, ",", p.y, ")"); return r + "}"; }
static ld gapLow(const std::vector<vec3> &a, const std::vector<vec3> &b, ld &high) { std::vector<P> d; for (auto &p : a) for (auto &q : b) d.push_back(toP(p) - toP(q)); P x; ld l = minNormLow(d, &x); high = x.norm(); return l; }
// true when the hulls certainly overlap: a small shift in any axis direction keeps a common point
static bool overlaps(const std::vector<vec3> &a, const std::vector<vec3> &b, ld mag) { double e = (double) (1e-9L * mag); for (int k = 0; k < 6; ++k) { vec3 d(k / 2 == 0 ? e : 0, k / 2 == 1 ? e : 0, k / 2 == 2 ? e : 0); if (k & 1) d = d * -1; auto b2 = b; for (auto &p : b2) p = p + d; ld h; gapLow(a, b2, h); if (h > 1e-13L * mag) return false; } return true; }
static bool overlaps2(const std::vector<vec3> &a, const std::vector<vec3> &b, ld mag) { double e = (double) (1e-9L * mag); for (int k = 0; k < 4; ++k) { vec3 d(k / 2 ? 0 : e, k / 2 ? e : 0, 0); if (k & 1) d = d * -1; auto b2 = b; for (auto &p : b2) p = p + d; ld h; gapLow(a, b2, h); if (h > 1e-13L * mag) return false; } return true; }
static uint64_t fpv(const std::vector<vec3> &v) { uint64_t h = v.size(); for (auto &p : v) h = hcomb(h, hd(p.x) ^ hd(p.z)); return h; }
static vec3 comb(Rng &g, const std::vector<vec3> &v) { std::vector<double> w; double t = 0; for (size_t i = 0; i < v.size(); ++i) { w.push_back(g.p(.4) ? 0 : -log(g.u() + 1e-12)); t += w.back(); } if (t == 0) { w[0] = t = 1; } vec3 r(0, 0, 0); for (size_t i = 0; i < v.size(); ++i) r = r + v[i] * (w[i] / t); return r; }
static std::vector<vec3> cloud(Rng &g, int n, int kind) { std::vector<vec3> v; double e[3] = {1, 1, 1}; if (kind == 1) e[2] = 0; if (kind == 2) e[1] = e[2] = .01; if (kind == 3) e[g.i(0, 2)] = g.uni(.01, .2); for (int i = 0; i < n; ++i) { if (kind == 4) v.emplace_back(g.i(0, 1), g.i(0, 1), g.i(0, 1)); else v.emplace_back(g.gauss() * e[0], g.gauss() * e[1], g.gauss() * e[2]); } return v; }
static void rot(Rng &g, std::vector<vec3> &v) { double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); for (auto &p : v) { double x = ca * p.x - sa * p.y, y = sa * p.x + ca * p.y, z = p.z; p = vec3(x, cb * y - sb * z, sb * y + cb * z); } }
SUITE(space, 1500, 50000) {
    Rng &g = c.rng; auto a = cloud(g, g.i(1, 20), g.i(0, 4)), b = cloud(g, g.i(1, 20), g.i(0, 4)); rot(g, a); rot(g, b); int mode = g.i(0, 2); double sc = g.p(.6) ? 1 : pow(10, g.uni(-3, 3));
    if (mode == 0) { auto d = comb(g, a) - comb(g, b); for (auto &p : b) p = p + d; } else { vec3 dir(g.gauss(), g.gauss(), g.gauss()); dir.unitize(); double ma = -1e9, mb = 1e9; for (auto &p : a) ma = std::max(ma, p.dot(dir)); for (auto &p : b) mb = std::min(mb, p.dot(dir)); double s = mode == 1 ? g.uni(.05, 3) : pow(10, g.uni(-9, -1)); for (auto &p : b) p = p + dir * (ma - mb + s); } if (g.p(.5)) rot(g, a), rot(g, b);
    for (auto &p : a) p = p * sc; for (auto &p : b) p = p * sc; c.d << "mode " << mode << " " << str(a) << str(b); c.nontrivial(hcomb(fpv(a), fpv(b))); ld hi, lo = gapLow(a, b, hi), ext = 0; for (auto &p : a) for (auto &q : a) ext = std::max(ext, (toP(p) - toP(q)).norm()); for (auto &p : b) for (auto &q : b) ext = std::max(ext, (toP(p) - toP(q)).norm()); ld mag = ext; for (auto &p : a) mag = std::max(mag, toP(p).norm()); for (auto &p : b) mag = std::max(mag, toP(p).norm()); ext = std::max(ext, mag * 1e-3L);
    bool in = hi <= 1e-15L * mag, out = lo > 1e-6L * ext && lo > 0; auto msg = [&](const char *w) { return S(w, " gap in [", lo, ",", hi, "] extent ", ext); };
    for (int sw = 0; sw < 2; ++sw) { auto &x = sw ? b : a; auto &y = sw ? a : b; bool sep = SAT3D(x, y), sepT = SAT3D(x, y, 1e-3 * sc); std::vector<vec3> simplex; vec3 cp(0, 0, 0); bool hit = GJK(x, y, simplex, cp); ld slack = 1e-12L * mag;
        if (in) c.check(!sepT, "sat3d-separates-intersecting", [&] { return msg("tol 1e-3"); });
        if (sep) c.check(lo > 0 || hi > 1e-13L * mag || !overlaps(x, y, mag), "sat3d-unsound", [&] { return msg("SAT3D"); }); if (!hit) { c.check(lo > 0 || hi > 1e-13L * mag || !overlaps(x, y, mag), "gjk-unsound", [&] { return msg("GJK"); }); ld d = toP(cp).norm(); c.check(d >= lo - slack, "gjk-distance-understated", [&] { return S(msg("GJK"), " reported ", d); }); std::vector<P> diff; for (auto &p : x) for (auto &q : y) diff.push_back(toP(p) - toP(q) - toP(cp)); c.check(minNormLow(diff) <= 1e-9L * mag, "gjk-point-not-in-difference", [&] { return msg("GJK"); }); }
        if (sepT) c.check(hi > 1e-3L * sc * (1 - 1e-9L) - slack, "sat3d-below-tolerance", [&] { return msg("tol 1e-3"); });
        if (out) { c.check(sep, "sat3d-clear-gap-missed", [&] { return msg("SAT3D"); }); c.check(!hit, "gjk-clear-gap-missed", [&] { return msg("GJK"); }); } }
}
static std::vector<vec2> poly(Rng &g) { // convex polygon, either orientation
    int n = g.i(3, 9); std::vector<double> t; for (int i = 0; i < n; ++i) t.push_back(g.uni(0, 6.2831)); std::sort(t.begin(), t.end()); double ax = g.uni(.2, 2), ay = g.uni(.2, 2), r = g.uni(0, 6.28); std::vector<vec2> v; if (g.p(.3)) v = {{-ax, -ay}, {ax, -ay}, {ax, ay}, {-ax, ay}}; else for (double a : t) v.emplace_back(ax * cos(a), ay * sin(a)); if (g.p(.6)) for (auto &p : v) { double x = cos(r) * p.x - sin(r) * p.y, y = sin(r) * p.x + cos(r) * p.y; p = vec2(x, y); } if (g.p(.3)) std::reverse(v.begin(), v.end()); return v; }
SUITE(plane, 2500, 80000) {
    Rng &g = c.rng; auto a = poly(g), b = poly(g); auto l = [](const std::vector<vec2> &v) { std::vector<vec3> r; for (auto &p : v) r.emplace_back(p.x, p.y, 0); return r; }; auto a3 = l(a), b3 = l(b); vec3 d; int mode = g.i(0, 2); if (mode == 0) d = comb(g, a3) - comb(g, b3); else { double t = g.uni(0, 6.2831); vec3 dir(cos(t), sin(t), 0); if (g.p(.4)) { auto &e = g.p(.5) ? a : b; int i = g.i(0, (int) e.size() - 1); vec2 q = e[(i + 1) % e.size()] - e[i]; dir = vec3(q.y, -q.x, 0); if (g.p(.5)) dir = dir * -1; if (dir.length() < 1e-9) dir = vec3(1, 0, 0); dir.unitize(); } double ma = -1e9, mb = 1e9; for (auto &p : a3) ma = std::max(ma, p.dot(dir)); for (auto &p : b3) mb = std::min(mb, p.dot(dir)); d = dir * (ma - mb + (mode == 1 ? g.uni(.02, 1) : pow(10, g.uni(-8, -1)))); vec3 side(-dir.y, dir.x, 0); d = d + side * g.uni(-.5, .5); }
    double sc = g.p(.6) ? 1 : pow(10, g.uni(-4, 4)); for (auto &p : b) p = vec2(p.x + d.x, p.y + d.y); for (auto &p : a) p = vec2(p.x * sc, p.y * sc); for (auto &p : b) p = vec2(p.x * sc, p.y * sc); for (auto *e : {&a, &b}) if (g.p(.1)) { size_t i = g.i(0, (int) e->size() - 1); vec2 v = (*e)[i]; e->insert(e->begin() + i, v); } a3 = l(a); b3 = l(b); c.d << "mode " << mode << " " << str2(a) << str2(b); c.nontrivial(hcomb(fpv(a3), fpv(b3))); ld hi, lo = gapLow(a3, b3, hi); bool s1 = SAT2D(a, b), s2 = SAT2D(b, a); ld mag = 5 * sc; auto msg = [&] { return S("SAT2D ", s1, s2, " gap in [", lo, ",", hi, "]"); };
    if (s1) c.check(lo > 0 || hi > 1e-13L * mag || !overlaps2(a3, b3, mag), "sat2d-unsound", msg); if (s2) c.check(lo > 0 || hi > 1e-13L * mag || !overlaps2(a3, b3, mag), "sat2d-unsound-swapped", msg); if (lo > 1e-9L * mag) { c.check(s1, "sat2d-gap-missed", msg); c.check(s2, "sat2d-gap-missed-swapped", msg); }
}
SUITE(exact_common, 600, 15000) { // integer sets that share a vertex, an edge point or an interior point exactly: nothing may separate them
    Rng &g = c.rng; auto mk = [&] { std::vector<vec3> v; int n = g.i(1, 8); for (int i = 0; i < n; ++i) v.emplace_back(g.i(-8, 8) * 2, g.i(-8, 8) * 2, g.i(-8, 8) * 2); return v; }; auto a = mk(), b = mk(); auto pt = [&](const std::vector<vec3> &v) { return (g.pick(v) + g.pick(v)) * .5; }; vec3 d = pt(a) - pt(b); for (auto &p : b) p = p + d; c.d << str(a) << str(b); c.nontrivial(hcomb(fpv(a), fpv(b))); std::vector<vec3> simplex; vec3 cp(0, 0, 0); c.check(!SAT3D(a, b) && !SAT3D(b, a), "sat3d"); c.check(GJK(a, b, simplex, cp), "gjk"); c.check(!AABBTest(a, b), "aabb");
    std::vector<vec2> p, q; for (auto &x : a) p.emplace_back(x.x, x.y); for (auto &x : b) q.emplace_back(x.x, x.y); auto h1 = convex_hull2d(p), h2 = convex_hull2d(q); if (h1.size() > 2 && h2.size() > 2) c.check(!SAT2D(h1, h2) && !SAT2D(h2, h1), "sat2d");
}
SUITE(sphere, 1500, 50000) { // separable exactly when a plane through the centre separates the direction sets
    Rng &g = c.rng; int mode = g.i(0, 3); auto mk = [&](vec3 ax, double spread, int n) { std::vector<vec3> v; ax.unitize(); for (int i = 0; i < n; ++i) { vec3 d = ax + vec3(g.gauss(), g.gauss(), g.gauss()) * spread; d.unitize(); v.push_back(d * (g.p(.5) ? 1 : g.uni(.1, 10))); } return v; }; vec3 x(g.gauss(), g.gauss(), g.gauss()), y(g.gauss(), g.gauss(), g.gauss()); if (g.p(.15)) x = vec3(0, 0, 1); double s1 = pow(10, g.uni(-3, .3)), s2 = pow(10, g.uni(-3, .3)); if (mode == 1) y = x + vec3(g.gauss(), g.gauss(), g.gauss()) * .2; auto a = mk(x, s1, g.i(1, 25)), b = mk(y, s2, g.i(1, 25)); if (mode == 2) { vec3 m = comb(g, a); if (m.length() > 1e-3) { b.push_back(m * g.uni(.5, 2)); } } if (mode == 3) { vec3 m = comb(g, a), w(g.gauss(), g.gauss(), g.gauss()); b.push_back(m + w); b.push_back(m - w); g.shuffle(b); }
    vec3 org = g.p(.5) ? vec3(0, 0, 0) : vec3(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)); c.d << "mode " << mode << " " << str(a) << str(b); c.nontrivial(hcomb(fpv(a), fpv(b))); std::vector<P> d; for (auto &p : a) { auto q = toP(p); d.push_back(q * (1 / q.norm())); } for (auto &p : b) { auto q = toP(p); if (q.norm() > 0) d.push_back(q * (-1 / q.norm())); } P xm; ld lo = minNormLow(d, &xm), hi = xm.norm();
    auto a1 = a, b1 = b; bool s = SphericalSeparabilityTest(a1, b1), sw = SphericalSeparabilityTest(b1, a1), sp = SphericalCentralProjectionTest(a1, b1); auto a2 = a, b2 = b; for (auto &p : a2) p = p + org; for (auto &p : b2) p = p + org; bool t = SphericalCentralProjectionTest2(org, a2, b2); auto msg = [&] { return S("results ", s, sw, sp, t, " certified margin [", lo, ",", hi, "]"); };
    bool deep = true; if (lo <= 0 && hi < 1e-13L && (s || sw || sp || t)) for (int k = 0; k < 6; ++k) { auto d2 = d; P sh{k / 2 == 0 ? 1e-9L : 0, k / 2 == 1 ? 1e-9L : 0, k / 2 == 2 ? 1e-9L : 0}; for (auto &p : d2) p = p + sh * (k & 1 ? -1 : 1); P x2; minNormLow(d2, &x2); if (x2.norm() > 1e-13L) deep = false; }
    if (hi < 1e-13L && lo <= 0 && deep) { c.check(!s && !sw && !sp, "separates-common-direction", msg); c.check(!t, "projection2-separates-common-direction", msg); } if (s || sw || sp) c.check(lo > 0 || hi > 1e-14L, "unsound", msg); if (lo > .02L) { c.check(s && sw && sp, "clear-separation-missed", msg); c.check(t, "projection2-clear-separation-missed", msg); }
}
SUITE(dense, 60, 2500) { // many points on smooth bodies a hair apart: the iterative test needs most of its iterations
    Rng &g = c.rng; int miss = 0, sat = 0; uint64_t h = 1; std::string worst; for (int t = 0; t < 120; ++t) { auto mk = [&](int n) { double e[3] = {pow(10, g.uni(-1.5, 0)), pow(10, g.uni(-1.5, 0)), 1}; std::vector<vec3> v; for (int i = 0; i < n; ++i) { vec3 d(g.gauss(), g.gauss(), g.gauss()); d.unitize(); v.emplace_back(d.x * e[0], d.y * e[1], d.z * e[2]); } rot(g, v); return v; }; auto a = mk(g.i(80, 250)), b = mk(g.i(80, 250)); vec3 dir(g.gauss(), g.gauss(), g.gauss()); dir.unitize(); double ma = -1e9, mb = 1e9; for (auto &p : a) ma = std::max(ma, p.dot(dir)); for (auto &p : b) mb = std::min(mb, p.dot(dir)); double s = pow(10, g.uni(-4, -2.5)); for (auto &p : b) p = p + dir * (ma - mb + s); h = hcomb(h, hcomb(fpv(a), fpv(b)));
        std::vector<vec3> simplex; vec3 cp(0, 0, 0); if (GJK(a, b, simplex, cp)) { ++miss; worst = S("gap at least ", s); } else if (t == 0) { ld d = toP(cp).norm(); c.check(d >= s * (1 - 1e-9L), "gjk-distance-understated-dense", [&] { return S("reported ", d, " gap ", s); }); } sat += t < 20 && !SAT3D(a, b); vec3 m = g.pick(a) - g.pick(b); for (auto &p : b) p = p + m; std::vector<vec3> s2; vec3 c2(0, 0, 0); if (t % 4 == 0) c.check(GJK(a, b, s2, c2) && !SAT3D(a, b), "dense-common-point-separated", [] { return std::string(); }); }
    c.d << "120 pairs"; c.nontrivial(h); H::stat("dense-pairs", 120); H::stat("dense-unresolved", miss); c.check(miss < 5 && sat < 4, "dense-gaps-missed", [&] { return S(miss, " of 120 pairs with a gap are not separated by GJK, ", sat, " of 20 by SAT3D: ", worst); });
}
HARNESS_MAIN
