// kd-tree against a linear scan, over histories of builds and insertions.
#include "common.h"
#include "cmmcore/kdtree.h"
using namespace H; using namespace cmmcore;
static bool less3(const vec3 &a, const vec3 &b) { return std::make_tuple(a.x, a.y, a.z) < std::make_tuple(b.x, b.y, b.z); }
static bool eq3(const vec3 &a, const vec3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static vec3 pt(Rng &g, int kind) { if (kind == 0) return vec3(g.uni(-10, 10), g.uni(-10, 10), g.uni(-10, 10)); if (kind == 1) return vec3(g.i(-2, 2), g.i(-2, 2), g.i(-2, 2)); if (kind == 2) return vec3(g.i(0, 3), 0, g.uni(-1, 1)); if (kind == 3) return vec3(g.gauss() * 1e-4, g.gauss() * 1e4, g.gauss()); return vec3(1, 1, 1); }
static std::string str(const vec3 &p) { return S("(", p.x, ",", p.y, ",", p.z, ")"); }
static void audit(Case &c, const KDTree3D &t, const std::vector<vec3> &m, int kind) {
    Rng &g = c.rng; c.check(t.size() == m.size(), "size", [&] { return S(t.size(), " vs ", m.size()); }); c.check(t.empty() == m.empty(), "empty");
    if (m.empty()) { bool threw = false; try { t.nearestNeighbor(vec3(0, 0, 0)); } catch (const std::exception &) { threw = true; } c.check(threw, "nearest-on-empty-not-rejected"); c.check(t.rangeSearch(vec3(-1e9, -1e9, -1e9), vec3(1e9, 1e9, 1e9)).empty(), "range-on-empty"); return; }
    for (int k = 0; k < 6; ++k) {
        vec3 q = g.p(.4) ? g.pick(m) : pt(g, kind); if (g.p(.3)) q = q + vec3(g.gauss(), g.gauss(), g.gauss()) * .3; vec3 r = t.nearestNeighbor(q); ld best = 1e300L; bool stored = false; for (auto &p : m) { ld d = (ld) (p.x - q.x) * (p.x - q.x) + (ld) (p.y - q.y) * (p.y - q.y) + (ld) (p.z - q.z) * (p.z - q.z); best = std::min(best, d); stored = stored || eq3(p, r); }
        ld d = (ld) (r.x - q.x) * (r.x - q.x) + (ld) (r.y - q.y) * (r.y - q.y) + (ld) (r.z - q.z) * (r.z - q.z); c.check(stored, "nearest-not-stored", [&] { return str(r); }); c.check(d <= best * (1 + 1e-12L), "nearest-not-nearest", [&] { return S("query ", str(q), " got ", str(r), " d2 ", d, " best ", best); });
        vec3 a = g.p(.5) ? g.pick(m) : pt(g, kind), b = g.p(.5) ? g.pick(m) : pt(g, kind); vec3 lo(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), hi(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); if (g.p(.1)) { lo = vec3(-1e9, -1e9, -1e9); hi = vec3(1e9, 1e9, 1e9); } if (g.p(.1)) lo = hi = a; if (g.p(.05)) std::swap(lo.x, hi.x);
        auto got = t.rangeSearch(lo, hi); std::vector<vec3> want; for (auto &p : m) if (p.x >= lo.x && p.x <= hi.x && p.y >= lo.y && p.y <= hi.y && p.z >= lo.z && p.z <= hi.z) want.push_back(p); std::sort(got.begin(), got.end(), less3); std::sort(want.begin(), want.end(), less3);
        c.check(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), eq3), "range", [&] { return S("box ", str(lo), str(hi), " got ", got.size(), " expected ", want.size()); });
    }
}
SUITE(history, 500, 15000) {
    Rng &g = c.rng; int kind = g.i(0, 4), steps = g.i(1, 12); KDTree3D t; std::vector<vec3> m; if (g.p(.5)) audit(c, t, m, kind); uint64_t h = kind;
    for (int s = 0; s < steps; ++s) {
        if (g.p(.3)) { int n = g.p(.2) ? 0 : g.p(.2) ? g.i(50, 150) : g.i(1, 25); std::vector<vec3> p; for (int i = 0; i < n; ++i) p.push_back(pt(g, kind)); m = p; c.d << "build" << n << " "; for (auto &x : p) c.d << str(x); t.build(p); auto q = p, w = m; std::sort(q.begin(), q.end(), less3); std::sort(w.begin(), w.end(), less3); c.check(q.size() == w.size() && std::equal(q.begin(), q.end(), w.begin(), eq3), "build-changed-points"); h = hcomb(h, n); for (auto &x : p) h = hcomb(h, hd(x.x)); }
        else { int n = g.p(.2) ? g.i(10, 40) : g.i(1, 4); for (int i = 0; i < n; ++i) { vec3 p = !m.empty() && g.p(.15) ? g.pick(m) : pt(g, kind); t.insert(p); m.push_back(p); c.d << "ins" << str(p); h = hcomb(h, hd(p.x) ^ hd(p.z)); } }
        if (!m.empty()) c.nontrivial(h); if (g.p(.6) || s == steps - 1) audit(c, t, m, kind);
    }
}
HARNESS_MAIN
