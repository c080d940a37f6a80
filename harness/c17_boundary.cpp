// Boundary intersections of two surfaces, and their distribution into sequences.
#include "gen.h"
#include "cmmcore/boundary_intersection.h"
using namespace G;
using cmmcore::IntersectionPoint;
struct M3 { double m[3][3]; };
static M3 rotation(Rng &g) { M3 r; double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); double A[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}}, B[3][3] = {{1, 0, 0}, {0, cb, -sb}, {0, sb, cb}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += A[i][k] * B[k][j]; } return r; }
static NURBSSurface apply(const M3 &M, const NURBSSurface &s, vec3 d = vec3(0, 0, 0)) { auto P = s._control_points; for (auto &r : P) for (auto &v : r) { double x = v.x + d.x * v.w, y = v.y + d.y * v.w, z = v.z + d.z * v.w; v = vec4(M.m[0][0] * x + M.m[0][1] * y + M.m[0][2] * z, M.m[1][0] * x + M.m[1][1] * y + M.m[1][2] * z, M.m[2][0] * x + M.m[2][1] * y + M.m[2][2] * z, v.w); } return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }
static const M3 ID = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
// horizontal sheet of extent Lx x Ly
static NURBSSurface sheet(Rng &g, double Lx, double Ly, double amp, double irregular, int maxDeg = 3, int maxExtra = 2, double open = 0) {
    SurfOpt o; o.open = open; o.maxDeg = maxDeg; o.maxExtra = maxExtra; o.knotKind = g.i(0, 1); auto s = surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size(); bool rat = g.p(.3);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double w = rat ? g.uni(.7, 1.4) : 1, hx = Lx / (n - 1), hy = Ly / (m - 1); P[i][j] = vec4((-Lx / 2 + hx * (i + g.uni(-irregular, irregular))) * w, (-Ly / 2 + hy * (j + g.uni(-irregular, irregular))) * w, amp == 0 ? 0 : g.uni(-amp, amp) * w, w); }
    return NURBSSurface(P, s._degree, s._knots_u, s._knots_v);
}
static M3 standUp(Rng &g) { double a = g.uni(-3.1, 3.1), ca = cos(a), sa = sin(a), t = g.uni(-.35, .35), ct = cos(t), st = sin(t); // x->horizontal direction a, y->nearly vertical, z->normal
    M3 r = {{{ca, -sa * st, -sa * ct}, {sa, ca * st, ca * ct}, {0, ct, -st}}}; return r; }
static void sound(Case &c, const NURBSSurface &a, const NURBSSurface &b, double tol, const std::vector<IntersectionPoint> &r) {
    auto ra = toRef(a), rb = toRef(b); ld sc = 1 + scaleOf(ra) + scaleOf(rb);
    auto inside = [](const NURBSSurface &s, const std::array<double, 2> &p) { return p[0] >= s._interval[0][0] && p[0] <= s._interval[0][1] && p[1] >= s._interval[1][0] && p[1] <= s._interval[1][1]; };
    for (size_t i = 0; i < r.size(); ++i) { auto &x = r[i];
        if (!c.check(inside(a, x.surface1_params) && inside(b, x.surface2_params), "outside-domain", [&] { return S("params1 ", x.surface1_params[0], ",", x.surface1_params[1], " params2 ", x.surface2_params[0], ",", x.surface2_params[1]); })) continue;
        auto p = R::eval(ra, x.surface1_params[0], x.surface1_params[1]), q = R::eval(rb, x.surface2_params[0], x.surface2_params[1]); c.check((p - q).norm() <= 1.001L * tol + 1e-8L * sc, "not-on-both", [&] { return S(str(p), " vs ", str(q), " tol ", tol); });
        c.check(gap(x.point, x.is_from_first_surface ? p : q) <= 1e-8L * sc, "point", [&] { return S(str(x.point), " vs ", str(p), " / ", str(q)); });
        auto &s = x.is_from_first_surface ? a : b; auto &pr = x.is_from_first_surface ? x.surface1_params : x.surface2_params; bool e = x.boundary_index == 0 ? pr[0] == s._interval[0][0] : x.boundary_index == 1 ? pr[0] == s._interval[0][1] : x.boundary_index == 2 ? pr[1] == s._interval[1][0] : x.boundary_index == 3 && pr[1] == s._interval[1][1]; c.check(e, "edge", [&] { return S("boundary ", x.boundary_index, " params ", pr[0], ",", pr[1]); });
        auto st = x.get_start_params(); c.check(st.first == x.surface1_params && st.second == x.surface2_params, "start-params");
        for (size_t j = i + 1; j < r.size(); ++j) c.check(gap(x.point, r[j].point) > tol, "duplicate", [&] { return S(str(x.point), " and ", str(r[j].point), " tol ", tol); });
    }
}
static void sequences(Case &c, const std::vector<IntersectionPoint> &pts) {
    std::vector<std::vector<IntersectionPoint>> seq; cmmcore::sort_boundary_intersections(pts, seq); std::vector<int> seen(pts.size()); size_t total = 0;
    auto idx = [&](const IntersectionPoint &x) { for (size_t i = 0; i < pts.size(); ++i) if (!seen[i] && gap(pts[i].point, x.point) == 0 && pts[i].curve_param == x.curve_param && pts[i].boundary_index == x.boundary_index && pts[i].is_from_first_surface == x.is_from_first_surface) return (int) i; return -1; };
    for (auto &s : seq) { total += s.size(); c.check(!s.empty() && s.size() <= 2, "sequence-length", [&] { return S(s.size()); }); std::vector<int> id; for (auto &x : s) { int k = idx(x); if (c.check(k >= 0, "sequence-foreign", [&] { return S(str(x.point), " is not an unused input point"); })) { seen[k] = 1; id.push_back(k); } }
        if (id.size() == 2) { ld d = gap(pts[id[0]].point, pts[id[1]].point); for (size_t k = 0; k < pts.size(); ++k) if (!seen[k]) c.check(gap(pts[id[0]].point, pts[k].point) >= d - 1e-12L, "sequence-nearest", [&] { return S(str(pts[id[0]].point), " joined with ", str(pts[id[1]].point), " although ", str(pts[k].point), " is nearer"); }); } }
    c.check(total == pts.size() && std::count(seen.begin(), seen.end(), 1) == (long) pts.size(), "sequence-partition", [&] { return S(total, " of ", pts.size()); });
}
static std::string list(const std::vector<IntersectionPoint> &r) { std::string s = S(r.size(), " points:"); for (size_t i = 0; i < r.size() && i < 10; ++i) s += " " + str(r[i].point); return s; }
// crossings of the four edges of b with the plane z=0 (found in b's own frame by dense sampling), transversal ones only
static void planeCrossings(const NURBSSurface &b, std::vector<R::P3> &out) {
    auto rb = toRef(b); for (int e = 0; e < 4; ++e) { ld lo = b._interval[e < 2 ? 1 : 0][0], hi = b._interval[e < 2 ? 1 : 0][1], fix = b._interval[e < 2 ? 0 : 1][e & 1]; auto ev = [&](ld t) { return e < 2 ? R::eval(rb, fix, t) : R::eval(rb, t, fix); };
        int N = 60; ld pf = ev(lo).z; for (int i = 1; i <= N; ++i) { ld t0 = lo + (hi - lo) * (i - 1) / N, t1 = lo + (hi - lo) * i / N, q = ev(t1).z; if (pf * q < 0) { for (int k = 0; k < 60; ++k) { ld m = (t0 + t1) / 2; if (pf * ev(m).z <= 0) t1 = m; else t0 = m; } ld t = (t0 + t1) / 2; auto T = e < 2 ? R::dV(rb, fix, t) : R::dU(rb, t, fix); if (fabsl(T.z) > .4L * T.norm()) out.push_back(ev(t)); } pf = q; } }
}
SUITE(edge_through_plane, 220, 5000) {
    Rng &g = c.rng; double L = 20; auto a = sheet(g, L, L, 0, .2); auto b = sheet(g, g.uni(.5, 8), g.uni(1, 8), g.p(.3) ? 0 : g.uni(0, .6), .2, 3, 2, .15); if (g.p(.25)) b = sheet(g, g.uni(.02, .06), g.uni(1, 5), 0, .1, 2, 1); b = apply(standUp(g), b); b = apply(ID, b, vec3(g.uni(-3, 3), g.uni(-3, 3), g.uni(-1, 1)));
    std::vector<R::P3> ex; planeCrossings(b, ex); double tol = pow(10, -g.uni(2.3, 4)); bool sw = g.p(.5); if (g.p(.5)) { auto M = rotation(g); a = apply(M, a); b = apply(M, b); for (auto &p : ex) { R::P3 q = p; p.x = M.m[0][0] * q.x + M.m[0][1] * q.y + M.m[0][2] * q.z; p.y = M.m[1][0] * q.x + M.m[1][1] * q.y + M.m[1][2] * q.z; p.z = M.m[2][0] * q.x + M.m[2][1] * q.y + M.m[2][2] * q.z; } }
    if (sw) std::swap(a, b); c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); uint64_t ha = fp(a), hb = fp(b); std::vector<IntersectionPoint> r; cmmcore::find_boundary_intersections(a, b, r, tol); c.check(fp(a) == ha && fp(b) == hb, "inputs-changed"); sound(c, a, b, tol, r); sequences(c, r);
    for (auto &p : ex) { bool f = false; for (auto &x : r) if (gap(x.point, p) <= 4 * tol) f = true; c.check(f, "missed", [&] { return S("edge crossing ", str(p), " tol ", tol, "; ", list(r)); }); }
}
SUITE(curved_pair, 160, 4000) { // both curved: soundness; the surfaces' edges are placed so that crossings usually exist
    Rng &g = c.rng; auto a = sheet(g, g.uni(4, 10), g.uni(4, 10), g.uni(.1, .8), .2, 3, 2, .15), b = apply(standUp(g), sheet(g, g.uni(4, 10), g.uni(4, 10), g.uni(.1, .8), .2, 3, 2, .15)); if (g.p(.5)) { auto M = rotation(g); a = apply(M, a); b = apply(M, b); } double tol = pow(10, -g.uni(2.3, 4)); c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    std::vector<IntersectionPoint> r; cmmcore::find_boundary_intersections(a, b, r, tol); sound(c, a, b, tol, r); sequences(c, r);
}
SUITE(disjoint, 80, 1500) {
    Rng &g = c.rng; double amp = g.uni(0, 1); auto a = sheet(g, 6, 6, amp, .2), b = apply(ID, sheet(g, 6, 6, amp, .2), vec3(g.uni(-4, 4), g.uni(-4, 4), 2 * amp + g.uni(.05, 2))); double tol = pow(10, -g.uni(2.3, 4)); c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); std::vector<IntersectionPoint> r; cmmcore::find_boundary_intersections(a, b, r, tol); c.check(r.empty(), "phantom", [&] { return list(r); }); std::vector<std::vector<IntersectionPoint>> q; cmmcore::sort_boundary_intersections(r, q); c.check(q.empty(), "empty-sequences");
}
SUITE(sorting, 800, 20000) { // synthetic point sets: any count, repeated points
    Rng &g = c.rng; int n = g.i(0, 12); std::vector<IntersectionPoint> pts; std::array<std::array<double, 2>, 2> iv{{{0, 1}, {2, 5}}}; for (int i = 0; i < n; ++i) { vec3 p(g.uni(-5, 5), g.uni(-5, 5), g.uni(-5, 5)); if (!pts.empty() && g.p(.1)) p = g.pick(pts).point; double t = g.uni(0, 1); pts.emplace_back(p, t, std::array<double, 2>{g.u(), g.u()}, g.i(0, 3), g.p(.5), iv); c.d << str(p); c.nontrivial(hd(p.x)); } c.nontrivial(n); sequences(c, pts);
    for (auto &x : pts) { auto &e = x.is_from_first_surface ? x.surface1_params : x.surface2_params, &o = x.is_from_first_surface ? x.surface2_params : x.surface1_params; c.check(o == x.surface_params, "params-of-other"); std::array<double, 2> w = x.boundary_index == 0 ? std::array<double, 2>{0, x.curve_param} : x.boundary_index == 1 ? std::array<double, 2>{1, x.curve_param} : x.boundary_index == 2 ? std::array<double, 2>{x.curve_param, 2} : std::array<double, 2>{x.curve_param, 5}; c.check(e == w, "params-on-edge", [&] { return S("index ", x.boundary_index, " gives ", e[0], ",", e[1]); }); }
}
HARNESS_MAIN
