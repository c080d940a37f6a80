// Surface split / subdivide / decompose.
#include "gen.h"
using namespace G;
static ld relW(const NURBSSurface &k) { ld a = 1e9L, b = 0; for (auto &row : k._control_points) for (auto &v : row) { a = std::min<ld>(a, v.w); b = std::max<ld>(b, v.w); } return b / a; }
static bool clampedKv(const std::vector<double> &U, int p, size_t n) { if (U.size() != n + p + 1 || (int) n < p + 1) return false; for (int i = 1; i <= p; ++i) if (U[i] != U[0] || U[n + p - i] != U[n + p]) return false; return std::is_sorted(U.begin(), U.end()) && U[p] < U[n]; }
// a consistent surface, clamped in the directions in which it was cut
static bool wf(const NURBSSurface &s, bool u = true, bool v = true) { if (s._control_points.size() != s._size[0]) return false; for (auto &r : s._control_points) if (r.size() != s._size[1]) return false;
    if (s._knots_u.size() != s._size[0] + s._degree[0] + 1 || s._knots_v.size() != s._size[1] + s._degree[1] + 1) return false; return (!u || clampedKv(s._knots_u, s._degree[0], s._size[0])) && (!v || clampedKv(s._knots_v, s._degree[1], s._size[1])) && s._interval == valid(s); }
static void patch(Case &c, const R::Surf &r, const NURBSSurface &s, ld tol, const char *key) {
    for (int i = 0; i < 9; ++i) { double fu = i < 4 ? (i & 1) : c.rng.u(), fv = i < 4 ? (i >> 1) : c.rng.u(); auto &I = s._interval;
        double u = fu == 1 ? I[0][1] : I[0][0] + fu * (I[0][1] - I[0][0]), v = fv == 1 ? I[1][1] : I[1][0] + fv * (I[1][1] - I[1][0]); vec3 a; s.evaluate(u, v, a); R::P3 e = R::eval(r, u, v);
        if (!c.check(finite(a) && gap(a, e) <= tol, key, [&] { return S("u=", u, " v=", v, " gives ", str(a), " original ", str(e)); })) return; }
}
static uint64_t stateHash(const NURBSSurface &s) { uint64_t h = fp(s); for (auto &r : s._control_points) for (auto &v : r) h = hcomb(hcomb(h, hd(v.y)), hd(v.z)); for (double x : s._knots_v) h = hcomb(h, hd(x)); return hcomb(h, s._size[0] * 1000 + s._size[1]); }
typedef std::array<std::array<double, 2>, 2> Rect;
static bool tiles(const std::vector<Rect> &rs, const Rect &dom) { // area adds up and no overlap, corners on grid
    long double A = 0; for (auto &r : rs) { if (r[0][0] < dom[0][0] || r[0][1] > dom[0][1] || r[1][0] < dom[1][0] || r[1][1] > dom[1][1]) return false; A += ((ld) r[0][1] - r[0][0]) * ((ld) r[1][1] - r[1][0]); }
    for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < i; ++j) if (std::min(rs[i][0][1], rs[j][0][1]) > std::max(rs[i][0][0], rs[j][0][0]) && std::min(rs[i][1][1], rs[j][1][1]) > std::max(rs[i][1][0], rs[j][1][0])) return false;
    long double D = ((ld) dom[0][1] - dom[0][0]) * ((ld) dom[1][1] - dom[1][0]); return fabsl(A - D) <= 1e-12L * D; }

SUITE(split, 2000, 50000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 5; o.open = .2; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); uint64_t h0 = stateHash(s); ld tol = 1e-10L * scaleOf(r) * relW(s) * 8;
    for (int dir = 0; dir < 2; ++dir) { auto &K = dir ? s._knots_v : s._knots_u; double t = interior(g, K, s._degree[dir], (int) s._size[dir] - 1); if (nearKnot(K, t, 1e-6)) continue; c.d << " split " << dir << " at " << t;
        double t0 = t; t = jitter(g, K, t); auto pr = dir ? s.split_surface_v(t) : s.split_surface_u(t); t = pr.first._interval[dir][1]; c.check(std::fabs(t - t0) <= 2e-12, "split-parameter");
        if (!c.check(wf(pr.first, dir == 0, dir == 1) && wf(pr.second, dir == 0, dir == 1) && pr.first._degree == s._degree && pr.second._degree == s._degree, "clamped", [&] { return S("dir ", dir, " t=", t); })) continue;
        Rect a = s._interval, b = s._interval; a[dir][1] = t; b[dir][0] = t; c.check(pr.first._interval == a && pr.second._interval == b, "domain"); patch(c, r, pr.first, tol, "first-patch"); patch(c, r, pr.second, tol, "second-patch"); }
    c.check(stateHash(s) == h0, "source-changed");
}
SUITE(subdivide, 1200, 30000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 4; o.open = .2; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); uint64_t h0 = stateHash(s); ld tol = 1e-10L * scaleOf(r) * relW(s) * 10; std::vector<NURBSSurface> out; int mode = g.i(0, 3); auto I = s._interval;
    double um = .5 * (I[0][0] + I[0][1]), vm = .5 * (I[1][0] + I[1][1]); if (mode == 1 || mode == 2) { um = interior(g, s._knots_u, s._degree[0], (int) s._size[0] - 1); vm = interior(g, s._knots_v, s._degree[1], (int) s._size[1] - 1); }
    if (nearKnot(s._knots_u, um, 1e-6) || nearKnot(s._knots_v, vm, 1e-6)) return; double um0 = um, vm0 = vm; um = jitter(g, s._knots_u, um); vm = jitter(g, s._knots_v, vm); c.d << " mode " << mode << " at " << um << "," << vm;
    if (mode == 0) { auto a = s.subdivide(); out.assign(a.begin(), a.end()); } else if (mode == 1) { auto a = s.subdivide(um, vm); out.assign(a.begin(), a.end()); }
    else { out.resize(4); if (mode == 2) s.subdivide(out[0], out[1], out[2], out[3], um, vm); else s.subdivide(out[0], out[1], out[2], out[3]); }
    std::vector<Rect> rs; bool ok = true; for (auto &p : out) { ok = ok && wf(p); rs.push_back(p._interval); }
    if (!c.check(ok, "clamped")) return;
    um = out[0]._interval[0][1]; vm = out[0]._interval[1][1]; c.check(std::fabs(um - um0) <= 2e-12 && std::fabs(vm - vm0) <= 2e-12, "split-parameter");
    Rect w[4] = {{{{I[0][0], um}, {I[1][0], vm}}}, {{{I[0][0], um}, {vm, I[1][1]}}}, {{{um, I[0][1]}, {I[1][0], vm}}}, {{{um, I[0][1]}, {vm, I[1][1]}}}};
    for (int i = 0; i < 4; ++i) c.check(out[i]._interval == w[i], "quadrant", [&] { return S("part ", i); });
    for (auto &p : out) patch(c, r, p, tol, "patch"); c.check(stateHash(s) == h0, "source-changed");
}
SUITE(repeated, 500, 10000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 3; o.open = .2; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); std::vector<NURBSSurface> ps{s}; std::vector<std::array<bool, 2>> cut{{false, false}}; int steps = g.i(2, 6);
    for (int q = 0; q < steps; ++q) { size_t w = g.i(0, (int) ps.size() - 1); NURBSSurface x = ps[w]; int dir = g.i(0, 1); auto &K = dir ? x._knots_v : x._knots_u; if (x._interval[dir][1] - x._interval[dir][0] < 1e-2) continue; double t = g.p(.3) ? .5 * (x._interval[dir][0] + x._interval[dir][1]) : interior(g, K, x._degree[dir], (int) x._size[dir] - 1, 1e-2); if (nearKnot(K, t, 1e-6)) continue;
        t = jitter(g, K, t); auto pr = dir ? x.split_surface_v(t) : x.split_surface_u(t); ps[w] = pr.first; ps.push_back(pr.second); cut[w][dir] = true; cut.push_back(cut[w]); }
    std::vector<Rect> rs; for (size_t i = 0; i < ps.size(); ++i) { auto &p = ps[i]; rs.push_back(p._interval); if (c.check(wf(p, cut[i][0], cut[i][1]), "clamped")) patch(c, r, p, 1e-9L * scaleOf(r) * relW(s) * 10, "patch"); } c.check(tiles(rs, s._interval), "tiling");
}
SUITE(decompose, 1000, 20000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 4; o.open = .2; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); uint64_t h0 = stateHash(s); ld tol = 1e-9L * scaleOf(r) * relW(s) * 10; std::vector<NURBSSurface> out; s.decompose(out);
    auto spans = [](const std::vector<double> &U, int p) { int k = 0; for (size_t i = p; i + p + 1 < U.size(); ++i) k += U[i] < U[i + 1]; return k; };
    c.check((int) out.size() == spans(s._knots_u, s._degree[0]) * spans(s._knots_v, s._degree[1]), "count", [&] { return S(out.size()); }); std::vector<Rect> rs;
    for (auto &p : out) { rs.push_back(p._interval); if (!c.check(wf(p) && (int) p._size[0] == p._degree[0] + 1 && (int) p._size[1] == p._degree[1] + 1 && p._degree == s._degree, "bezier")) continue; patch(c, r, p, tol, "patch"); }
    c.check(tiles(rs, s._interval), "tiling"); c.check(stateHash(s) == h0, "source-changed");
    for (int dir = 0; dir < 2; ++dir) { std::vector<NURBSSurface> strips; s.decompose(dir ? cmmcore::SurfaceParameter::V : cmmcore::SurfaceParameter::U, strips); rs.clear(); for (auto &p : strips) { rs.push_back(p._interval); if (c.check(wf(p, dir == 0, dir == 1) && (int) p._size[dir] == p._degree[dir] + 1, "strip-bezier")) patch(c, r, p, tol, "strip"); } c.check(tiles(rs, s._interval) && (int) strips.size() == spans(dir ? s._knots_v : s._knots_u, s._degree[dir]), "strip-tiling"); }
}
SUITE(edge_rejected, 500, 5000) {
    Rng &g = c.rng; SurfOpt o; o.open = .2; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); uint64_t h0 = stateHash(s);
    for (int dir = 0; dir < 2; ++dir) { double lo = valid(s)[dir][0], hi = valid(s)[dir][1], bad[] = {lo, hi, lo - g.uni(1e-6, 4), hi + g.uni(1e-6, 4), std::nextafter(lo, hi), std::nextafter(hi, lo)};
        for (double t : bad) { bool threw = false; try { dir ? s.split_surface_v(t) : s.split_surface_u(t); } catch (const std::invalid_argument &) { threw = true; } c.check(threw, "accepted", [&] { return S("dir ", dir, " at ", t, " of [", lo, ",", hi, "]"); }); } }
    c.check(stateHash(s) == h0, "source-changed");
}
HARNESS_MAIN
