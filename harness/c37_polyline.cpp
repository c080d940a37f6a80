// C37: polyline assembly: every segment used exactly once, none invented; disjoint chains and loops recovered exactly.
#include "common.h"
#include "cmmcore/polyline.h"
using namespace H;
using namespace cmmcore;

typedef std::array<double, 3> P;
static P key(const vec3 &v) { return {v.x + 0.0, v.y + 0.0, v.z + 0.0}; }
static bool lessP(const P &a, const P &b) { return a < b; }
typedef std::pair<P, P> Seg;
static Seg und(P a, P b) { return b < a ? Seg(b, a) : Seg(a, b); }
static std::string str(const P &p) { return S("(", p[0], ",", p[1], ",", p[2], ")"); }

struct Field { double scale, ox, oy, oz; int kind; };
static Field field(Rng &r) {
    Field f; f.kind = r.i(0, 5);
    switch (f.kind) {
        case 0: f = {1, 0, 0, 0, 0}; break;
        case 1: f = {std::pow(10.0, r.i(-12, 12)), 0, 0, 0, 1}; break;
        case 2: f = {std::ldexp(1.0, r.i(-45, 60)), 0, 0, 0, 2}; break;
        case 3: f = {1, r.uni(-1e6, 1e6), r.uni(-1e6, 1e6), r.uni(-10, 10), 3}; break;
        case 4: f = {std::ldexp(1.0, -50), 0, 0, 0, 4}; break;                       // spacing of a few tolerance cells
        default: f = {std::ldexp(1.0, -40), 1000, -2000, 500, 5};                       // neighbours a few ulp apart
    }
    return f;
}
static P at(const Field &f, int x, int y, int z) { return {f.ox + x * f.scale, f.oy + y * f.scale, f.oz + z * f.scale}; }
static vec3 v3(const P &p) { return vec3(p[0], p[1], p[2]); }
static std::vector<P> distinctPoints(Rng &r, const Field &f, int n) {
    std::set<P> s; std::vector<P> out; int range = 2 + (int) std::cbrt(4.0 * n);
    while ((int) out.size() < n) { P p = at(f, r.i(-range, range), r.i(-range, range), r.i(-range, range)); if (s.insert(p).second) out.push_back(p); }
    return out;
}
static std::vector<std::vector<P>> run(std::vector<Segment> &in) {
    std::vector<Segment> copy = in; std::vector<std::list<vec3>> out; assemble_polylines(copy, out);
    std::vector<std::vector<P>> r; for (auto &l : out) { r.emplace_back(); for (auto &p : l) r.back().push_back(key(p)); }
    return r;
}
// every consecutive pair is an unused input segment; the segments left over are closing pairs, one per polyline at most
static void conservation(Case &c, const std::vector<Seg> &in, const std::vector<std::vector<P>> &out) {
    std::map<Seg, int> left; for (auto &s : in) ++left[und(s.first, s.second)];
    for (auto &pl : out) {
        c.check(!pl.empty(), "empty-polyline", [&] { return std::string("an empty polyline was returned"); });
        for (size_t k = 0; k + 1 < pl.size(); ++k) { auto it = left.find(und(pl[k], pl[k + 1])); if (!c.check(it != left.end() && it->second > 0, "invented-or-reused", [&] { return S("the pair ", str(pl[k]), " ", str(pl[k + 1]), " is not an unused segment"); })) return; if (--it->second == 0) left.erase(it); }
    }
    std::map<Seg, int> closing; for (auto &pl : out) if (!pl.empty()) ++closing[und(pl.front(), pl.back())];
    for (auto &kv : left) c.check(kv.second <= closing[kv.first], "lost", [&] { return S("segment ", str(kv.first.first), " ", str(kv.first.second), " appears ", kv.second, " times too few in the result"); });
}

SUITE(chains, 2500, 40000) {
    Field f = field(c.rng); int nc = c.rng.i(1, 6); std::vector<int> len; std::vector<bool> loop; int tot = 0;
    for (int k = 0; k < nc; ++k) { bool l = c.rng.p(.5); int n = l ? c.rng.i(3, c.rng.p(.1) ? 40 : 9) : c.rng.i(2, c.rng.p(.1) ? 40 : 9); len.push_back(n); loop.push_back(l); tot += n; }
    auto pts = distinctPoints(c.rng, f, tot); std::vector<std::vector<P>> want; std::vector<Segment> in; std::vector<Seg> segs; int at0 = 0; uint64_t h = 1;
    for (int k = 0; k < nc; ++k) { std::vector<P> w(pts.begin() + at0, pts.begin() + at0 + len[k]); at0 += len[k]; want.push_back(w);
        for (int q = 0; q + 1 < len[k] + (loop[k] ? 1 : 0); ++q) { P a = w[q], b = w[(q + 1) % len[k]]; if (c.rng.p(.5)) std::swap(a, b); segs.push_back({a, b}); } }
    c.rng.shuffle(segs); for (auto &s : segs) { in.push_back({v3(s.first), v3(s.second)}); for (double d : s.first) h = hcomb(h, hd(d)); for (double d : s.second) h = hcomb(h, hd(d)); }
    c.d << nc << " chains/loops, field " << f.kind << " scale " << f.scale << ":"; for (int k = 0; k < nc; ++k) c.d << " " << (loop[k] ? "loop" : "chain") << len[k]; c.d << " segments"; for (auto &s : segs) c.d << " " << str(s.first) << str(s.second); c.nontrivial(h);
    auto out = run(in); conservation(c, segs, out);
    c.check(out.size() == want.size(), "polyline-count", [&] { return S(out.size(), " polylines instead of ", want.size()); });
    for (int k = 0; k < nc; ++k) {
        bool found = false; auto &w = want[k]; size_t n = w.size();
        for (auto &o : out) { if (o.size() != n) continue;
            if (!loop[k]) { found = found || o == w || std::equal(o.begin(), o.end(), w.rbegin()); }
            else for (size_t s = 0; s < n && !found; ++s) { bool f1 = true, f2 = true; for (size_t q = 0; q < n; ++q) { f1 = f1 && o[q] == w[(s + q) % n]; f2 = f2 && o[q] == w[(s + n - q) % n]; } found = f1 || f2; } }
        c.check(found, loop[k] ? "loop" : "chain", [&] { return S(loop[k] ? "loop" : "chain", " ", k, " of ", n, " points is not among the results"); });
    }
}
SUITE(soup, 2500, 40000) {
    Field f = field(c.rng); int np = c.rng.i(2, 14), ns = c.rng.i(1, c.rng.p(.1) ? 120 : 25); auto pts = distinctPoints(c.rng, f, np); std::vector<Segment> in; std::vector<Seg> segs; uint64_t h = 2; bool dup = c.rng.p(.5), degen = c.rng.p(.2);
    std::set<Seg> used;
    for (int k = 0; k < ns; ++k) { P a = c.rng.pick(pts), b = c.rng.pick(pts); if (a == b && !degen) continue; if (!dup && !used.insert(und(a, b)).second) continue; segs.push_back({a, b}); }
    for (auto &s : segs) { in.push_back({v3(s.first), v3(s.second)}); for (double d : s.first) h = hcomb(h, hd(d)); for (double d : s.second) h = hcomb(h, hd(d)); }
    c.d << np << " points, field " << f.kind << " scale " << f.scale << ", segments"; for (auto &s : segs) c.d << " " << str(s.first) << str(s.second); if (!segs.empty()) c.nontrivial(h);
    auto out = run(in); conservation(c, segs, out);
    if (dup || degen || c.failed) return;
    // maximality: two open polylines never share an end point
    std::map<P, int> deg; for (auto &s : segs) { ++deg[s.first]; ++deg[s.second]; }
    size_t pairs = 0; for (auto &o : out) pairs += o.size() - 1;
    if (pairs == segs.size()) { std::map<P, int> ends; for (auto &o : out) { ++ends[o.front()]; ++ends[o.back()]; } for (auto &e : ends) c.check(e.second <= 1, "joinable", [&] { return S("two polylines end at ", str(e.first)); }); }
}
SUITE(accumulate, 500, 5000) { // results are appended to what the caller already holds
    Field f = field(c.rng); auto p = distinctPoints(c.rng, f, 8); std::vector<Segment> a{{v3(p[0]), v3(p[1])}, {v3(p[2]), v3(p[1])}}, b{{v3(p[4]), v3(p[5])}, {v3(p[6]), v3(p[7])}}; std::vector<std::list<vec3>> out; uint64_t h = 3; for (auto &q : p) for (double d : q) h = hcomb(h, hd(d)); c.d << "two calls, scale " << f.scale; c.nontrivial(h);
    auto &r = assemble_polylines(a, out); c.check(&r == &out && out.size() == 1 && out[0].size() == 3, "first-call", [&] { return S(out.size(), " polylines"); });
    if (c.failed) return; auto keep = out[0]; assemble_polylines(b, out); c.check(out.size() == 3, "second-call", [&] { return S(out.size(), " polylines after the second call"); });
    if (!c.failed) { bool same = keep.size() == out[0].size(); auto i = keep.begin(); for (auto &q : out[0]) { same = same && i != keep.end() && key(q) == key(*i); ++i; } c.check(same, "earlier-result-kept", [&] { return std::string("the earlier polyline changed"); }); }
    std::vector<Segment> none; std::vector<std::list<vec3>> e; assemble_polylines(none, e); c.check(e.empty(), "no-segments", [&] { return std::string("polylines out of nothing"); });
}
HARNESS_MAIN
