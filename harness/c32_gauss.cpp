// Gauss map against the reference normal; separability against a certified common direction.
#include "gen.h"
#include "cmmcore/gauss_map.h"
using namespace H; using namespace cmmcore;
typedef R::P3 P;
#include "minnorm.h"
static NURBSSurface patch(Rng &g) { G::SurfOpt o; o.maxDeg = g.p(.15) ? 8 : 4; o.high = 0; o.maxExtra = 0; o.rational = 0; o.knotKind = 0; o.shape = g.p(.6) ? 1 : g.i(0, 4); auto s = G::surface(g, o); if (o.shape == 1 && g.p(.6)) { double f = pow(10, g.uni(-3, 0)); for (auto &r : s._control_points) for (auto &v : r) v.z *= f; double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); for (auto &r : s._control_points) for (auto &v : r) { double x = ca * v.x - sa * v.z, z = sa * v.x + ca * v.z, y = v.y; v.x = x; v.y = cb * y - sb * z; v.z = sb * y + cb * z; } } return s; }
static R::P3 normalAt(const R::Surf &r, ld u, ld v) { return R::dU(r, u, v).cross(R::dV(r, u, v)); }
// n (from the Gauss map at relative parameters) is parallel to the reference normal of s there
static void parallel(Case &c, const char *key, const R::Surf &ref, ld u, ld v, const vec3 &n) { auto a = R::dU(ref, u, v), b = R::dV(ref, u, v), e = a.cross(b); ld sc = 0; for (auto &r : ref.P) for (auto &x : r) for (auto &y : ref.P[0]) sc = std::max(sc, sqrtl((x.x - y.x) * (x.x - y.x) + (x.y - y.y) * (x.y - y.y) + (x.z - y.z) * (x.z - y.z))); ld big = 0; for (auto &r : ref.P) for (auto &x : r) big = std::max(big, fabsl(x.x) + fabsl(x.y) + fabsl(x.z)); if (e.norm() < 1e-3L * sc * sc) return; ld tol = 1e-9L * (1 + big / sc * big / sc * 1e-2L) * (sc * sc / e.norm()) * powl(30, std::max(0, std::max(ref.p, ref.q) - 4)); /* the monomial form loses digits with the degree */ auto r = G::p3(n); ld sn = r.cross(e).norm() / (r.norm() * e.norm()), cs = r.dot(e); c.check(G::finite(n) && r.norm() > 0 && sn <= tol && cs > 0, key, [&] { return S("at ", (double) u, ",", (double) v, " gauss map ", G::str(n), " normal ", G::str(e), " sine ", (double) sn); }); }
SUITE(normal, 1500, 60000) {
    Rng &g = c.rng; auto s = patch(g); G::describe(c, s); c.nontrivial(G::fp(s)); auto ref = G::toRef(s); NURBSSurface gm = gaussMap(s); GaussMap G1; if (g.p(.5)) { auto o = patch(g); G1.build(o); } G1.build(s); GaussMap G2(s); NURBSSurface *all[3] = {&gm, &G1.surf, &G2.surf}; const char *nm[3] = {"gaussMap", "GaussMap-rebuilt", "GaussMap"}; for (int k = 0; k < 3; ++k) for (int t = 0; t < 7; ++t) { auto &q = *all[k]; double a = t == 0 ? 0 : t == 1 ? 1 : g.u(), b = t == 0 ? 1 : t == 2 ? 0 : g.u(); vec3 r; q.evaluate(q._interval[0][0] + a * (q._interval[0][1] - q._interval[0][0]), q._interval[1][0] + b * (q._interval[1][1] - q._interval[1][0]), r); parallel(c, S("normal/", nm[k]).c_str(), ref, s._interval[0][0] + (ld) a * (s._interval[0][1] - s._interval[0][0]), s._interval[1][0] + (ld) b * (s._interval[1][1] - s._interval[1][0]), r); }
    auto pts = G1.surf.control_points_flat3d(); bool ok = pts.size() == G1.pts.size() && G1.pts_inv.size() == pts.size(); for (size_t i = 0; ok && i < pts.size(); ++i) ok = G::gap(pts[i], G1.pts[i]) == 0 && G1.pts_inv[i].x == -pts[i].x && G1.pts_inv[i].y == -pts[i].y && G1.pts_inv[i].z == -pts[i].z; c.check(ok, "points"); 
    GaussMap q[4]; if (g.p(.5)) for (auto &x : q) { auto o = patch(g); x.build(o); } G1.subdivide(q[0], q[1], q[2], q[3]); auto &iv = G1.surf._interval; for (int k = 0; k < 4; ++k) { auto &w = q[k].surf; auto wp = w.control_points_flat3d(); ok = q[k].pts.size() == wp.size() && q[k].pts_inv.size() == q[k].pts.size(); for (size_t i = 0; ok && i < q[k].pts.size(); ++i) ok = G::gap(q[k].pts[i], wp[i]) == 0 && q[k].pts_inv[i].x == -q[k].pts[i].x && q[k].pts_inv[i].z == -q[k].pts[i].z; c.check(ok, "subdivided-points"); for (int t = 0; t < 2; ++t) { double u = g.uni(w._interval[0][0], w._interval[0][1]), v = g.uni(w._interval[1][0], w._interval[1][1]); vec3 r; w.evaluate(u, v, r); ld a = (u - iv[0][0]) / (iv[0][1] - iv[0][0]), b = (v - iv[1][0]) / (iv[1][1] - iv[1][0]); parallel(c, "subdivided-normal", ref, s._interval[0][0] + a * (s._interval[0][1] - s._interval[0][0]), s._interval[1][0] + b * (s._interval[1][1] - s._interval[1][0]), r); } }
    std::vector<vec3> inv(3, vec3(1, 1, 1)); inverseControlPoints(pts, inv); ok = inv.size() == pts.size(); for (size_t i = 0; ok && i < pts.size(); ++i) ok = inv[i].x == -pts[i].x && inv[i].y == -pts[i].y && inv[i].z == -pts[i].z; c.check(ok, "inverse-points");
}
SUITE(separability, 1500, 60000) {
    Rng &g = c.rng; auto s = patch(g), t = patch(g); int mode = g.i(0, 3); auto rs = G::toRef(s), rt = G::toRef(t); auto in = [&](const NURBSSurface &q, int k, double f) { return q._interval[k][0] + f * (q._interval[k][1] - q._interval[k][0]); }; double a = in(s, 0, g.uni(.05, .95)), b = in(s, 1, g.uni(.05, .95)), d = in(t, 0, g.uni(.05, .95)), e = in(t, 1, g.uni(.05, .95)); auto n1 = normalAt(rs, a, b), n2 = normalAt(rt, d, e); if (n1.norm() == 0 || n2.norm() == 0) return; bool common = mode <= 1; double sign = mode == 0 ? 1 : -1;
    if (common) { // rotate t so that its normal at (d,e) equals +-n1
        P x = n2 * (1 / n2.norm()), y = n1 * ((ld) sign / n1.norm()), ax = x.cross(y); ld sn = ax.norm(), cs = x.dot(y); if (sn < 1e-9L) return; ax = ax * (1 / sn); auto rot = [&](P v) { return v * cs + ax.cross(v) * sn + ax * (ax.dot(v) * (1 - cs)); }; for (auto &r : t._control_points) for (auto &v : r) { P w = rot(P{v.x, v.y, v.z}); v.x = (double) w.x; v.y = (double) w.y; v.z = (double) w.z; } }
    rt = G::toRef(t); c.d << "mode " << mode << " "; G::describe(c, s); G::describe(c, t); c.nontrivial(hcomb(G::fp(s), G::fp(t))); GaussMap A(s), B(t); NURBSSurface ga = gaussMap(s), gb = gaussMap(t); bool r1 = A.separabilityTest(B), r2 = B.separabilityTest(A), r3 = gaussMapSeparability(ga, gb), r4 = gaussMapSeparability(gb, ga); auto msg = [&] { return S("results ", r1, r2, r3, r4); };
    // hulls of unit directions; certified bounds on the distance of A from B and from -B
    auto dirs = [&](const NURBSSurface &q, ld sg) { std::vector<P> v; for (auto &p : q.control_points_flat3d()) { P w = G::p3(p); if (w.norm() > 0) v.push_back(w * (sg / w.norm())); } return v; }; ld lo = 1e9L, hi = 0; auto da = dirs(ga, 1); for (int k = 0; k < 2; ++k) { std::vector<P> all = da; for (auto &w : dirs(gb, k ? 1 : -1)) all.push_back(w); P x; ld l = minNormLow(all, &x); lo = std::min(lo, l); hi = std::max(hi, l); }
    if (common) { bool deep = true; /* the shared normal is interior to the patch; skip when a rounding-size margin decides */ deep = hi < 1e-12L || lo < 1e-12L; if (deep && lo <= 0) { P z; bool robust = false; for (int k = 0; k < 2; ++k) { std::vector<P> all = da; for (auto &w : dirs(gb, k ? 1 : -1)) all.push_back(w); bool in6 = true; for (int h = 0; h < 6 && in6; ++h) { auto m = all; P sh{h / 2 == 0 ? 1e-9L : 0, h / 2 == 1 ? 1e-9L : 0, h / 2 == 2 ? 1e-9L : 0}; for (auto &p : m) p = p + sh * (h & 1 ? -1 : 1); minNormLow(m, &z); if (z.norm() > 1e-13L) in6 = false; } robust = robust || in6; } if (robust) c.check(!r1 && !r2 && !r3 && !r4, "separable-with-common-normal", msg); } }
    // sampled truth: any pair of sampled normals closer than rounding disproves a separability claim; a claim with certified margin is justified
    if (r1 || r2 || r3 || r4) c.check(lo > 0 || hi > 0, "claimed-without-margin", [&] { return S(msg(), " margins ", (double) lo, ",", (double) hi); });
    if (r1 || r2 || r3 || r4) { bool opp = false; for (int k = 0; k < 200 && !opp; ++k) { P x = normalAt(rs, in(s, 0, g.u()), in(s, 1, g.u())), y = normalAt(rt, in(t, 0, g.u()), in(t, 1, g.u())); if (x.norm() == 0 || y.norm() == 0) continue; if (x.cross(y).norm() < 1e-7L * x.norm() * y.norm()) opp = true; } c.check(!opp, "common-normal-sampled", msg); } if (lo > .05L) c.check(r1 && r2 && r3 && r4, "clear-separation-missed", [&] { return S(msg(), " margins ", (double) lo, ",", (double) hi); });
}
HARNESS_MAIN
