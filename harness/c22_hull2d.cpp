// Planar convex hull: exact comparison on integer inputs, containment and convexity on real ones.
#include "common.h"
#include "cmmcore/convexhull.h"
using namespace H; using namespace cmmcore;
typedef std::pair<long long, long long> IP;
static long long cr(IP o, IP a, IP b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
// strictly convex hull by gift wrapping over exact integers, counter-clockwise
static std::vector<IP> wrap(std::vector<IP> p) {
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); if (p.size() < 3) return {}; std::vector<IP> h; IP cur = p[0];
    do { h.push_back(cur); IP best = cur; for (auto &q : p) { if (q == cur) continue; if (best == cur) { best = q; continue; } long long s = cr(cur, best, q); auto d = [&](IP x) { return (x.first - cur.first) * (x.first - cur.first) + (x.second - cur.second) * (x.second - cur.second); }; if (s < 0 || (s == 0 && d(q) > d(best))) best = q; } cur = best; } while (cur != p[0] && h.size() <= p.size());
    return h.size() < 3 ? std::vector<IP>{} : h;
}
static std::vector<vec2> call(Case &c, std::vector<vec2> p, int api) { std::vector<vec2> r; if (api) { auto k = convex_hull((const std::vector<vec2> &) p, r); (void) k; } else r = convex_hull2d(p); return r; }
static std::string str(const std::vector<vec2> &v) { std::string r; for (auto &p : v) r += S("(", p.x, ",", p.y, ")"); return r; }
SUITE(exact, 1500, 60000) {
    Rng &g = c.rng; int n = g.p(.1) ? g.i(0, 4) : g.i(3, 40), R = g.p(.5) ? g.i(1, 4) : g.i(5, 1000), kind = g.i(0, 4); double sc = ldexp(1, g.p(.4) ? 0 : g.i(-20, 20)); long long ox = g.p(.3) ? g.i(-100000, 100000) : 0, oy = g.p(.3) ? g.i(-100000, 100000) : 0; std::vector<IP> ip; IP d(g.i(-3, 3), g.i(-3, 3));
    for (int i = 0; i < n; ++i) { IP p; if (kind == 0 || kind == 1) p = IP(g.i(-R, R), g.i(-R, R)); else if (kind == 2) { int t = g.i(-R, R); p = IP(d.first * t, d.second * t); } else if (kind == 3) { int t = g.i(0, 3), s = g.i(0, R); p = t == 0 ? IP(s, 0) : t == 1 ? IP(s, R) : t == 2 ? IP(0, s) : IP(R, s); } else p = ip.empty() || g.p(.5) ? IP(g.i(-R, R), g.i(-R, R)) : g.pick(ip); ip.push_back(p); }
    if (kind == 2 && g.p(.3)) ip.push_back(IP(d.first * 2 + 1, d.second * 3 - 1)); for (auto &p : ip) p = IP(p.first + ox, p.second + oy); g.shuffle(ip); std::vector<vec2> v; for (auto &p : ip) v.emplace_back(p.first * sc, p.second * sc); c.d << "scale " << sc << " " << str(v); uint64_t h = n; for (auto &p : ip) h = hcomb(h, p.first * 1000003 + p.second); auto w = wrap(ip); if (!w.empty()) c.nontrivial(h);
    int api = g.i(0, 1); auto r = call(c, v, api);
    if (w.empty()) { c.check(r.size() < 3, "degenerate-hull-size", [&] { return str(r); }); return; }
    bool ok = r.size() == w.size(); size_t off = 0; if (ok) { while (off < w.size() && !(w[off].first * sc == r[0].x && w[off].second * sc == r[0].y)) ++off; ok = off < w.size(); for (size_t i = 0; ok && i < r.size(); ++i) { auto &q = w[(off + i) % w.size()]; ok = q.first * sc == r[i].x && q.second * sc == r[i].y; } }
    c.check(ok, "hull-differs", [&] { std::string e; for (auto &q : w) e += S("(", q.first * sc, ",", q.second * sc, ")"); return S("got ", str(r), " expected ", e); });
    g.shuffle(v); auto r2 = call(c, v, 1 - api); ok = r.size() == r2.size(); if (ok && !r.empty()) { size_t o = 0; while (o < r2.size() && !(r2[o].x == r[0].x && r2[o].y == r[0].y)) ++o; ok = o < r2.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = r2[(o + i) % r2.size()].x == r[i].x && r2[(o + i) % r2.size()].y == r[i].y; } c.check(ok, "order-dependent", [&] { return str(r) + " vs " + str(r2); });
}
SUITE(real, 1200, 40000) {
    Rng &g = c.rng; int n = g.p(.1) ? g.i(60, 200) : g.i(3, 40), kind = g.i(0, 3); double sc = g.p(.4) ? 1 : pow(10, g.uni(-6, 6)); double ox = g.p(.3) ? g.uni(-100, 100) : 0, oy = g.p(.3) ? g.uni(-100, 100) : 0; std::vector<vec2> v;
    for (int i = 0; i < n; ++i) { double x, y; if (kind == 0) x = g.uni(-1, 1), y = g.uni(-1, 1); else if (kind == 1) { double t = g.uni(0, 6.2832); x = cos(t), y = sin(t); } else if (kind == 2) x = g.gauss(), y = g.gauss() * 1e-3; else { x = g.i(0, 4) * .1; y = g.i(0, 4) * .1; } v.emplace_back((x + ox) * sc, (y + oy) * sc); }
    c.d << str(v); uint64_t h = n; for (auto &p : v) h = hcomb(h, hd(p.x)); c.nontrivial(h); auto r = call(c, v, g.i(0, 1)); ld L = 0; for (auto &p : v) L = std::max({L, fabsl(p.x), fabsl(p.y)}); ld ext = 0; for (auto &p : v) for (auto &q : v) ext = std::max(ext, hypotl((ld) p.x - q.x, (ld) p.y - q.y)); ld area = 0; for (size_t i = 2; i < v.size(); ++i) area = std::max(area, fabsl(((ld) v[i].x - v[0].x) * ((ld) v[1].y - v[0].y) - ((ld) v[i].y - v[0].y) * ((ld) v[1].x - v[0].x))); bool fat = area > 1e-9L * ext * ext;
    for (auto &p : r) { bool in = false; for (auto &q : v) in = in || (q.x == p.x && q.y == p.y); c.check(in, "vertex-not-input", [&] { return S(p.x, ",", p.y); }); } for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < i; ++j) c.check(!(r[i].x == r[j].x && r[i].y == r[j].y), "repeated-vertex");
    if (fat && !c.check(r.size() >= 3, "hull-missing", [&] { return str(r); })) return; if (r.size() < 3) return; ld tol = 1e-13L * (L + ext) * ext;
    for (size_t i = 0; i < r.size(); ++i) { auto &a = r[i], &b = r[(i + 1) % r.size()]; ld ex = (ld) b.x - a.x, ey = (ld) b.y - a.y; for (auto &p : v) { ld s = ex * ((ld) p.y - a.y) - ey * ((ld) p.x - a.x); c.check(s >= -tol, "point-outside", [&] { return S("point ", p.x, ",", p.y, " left of edge ", i, " by ", s); }); } }
}
HARNESS_MAIN
