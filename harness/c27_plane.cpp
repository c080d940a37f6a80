// Plane construction and queries against long-double geometry.
#include "common.h"
#include "cmmcore/plane.h"
using namespace H; using namespace cmmcore;
struct P { ld x, y, z; P operator-(const P &o) const { return {x - o.x, y - o.y, z - o.z}; } P operator+(const P &o) const { return {x + o.x, y + o.y, z + o.z}; } P operator*(ld s) const { return {x * s, y * s, z * s}; } ld dot(const P &o) const { return x * o.x + y * o.y + z * o.z; } ld norm() const { return sqrtl(dot(*this)); } P cross(const P &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; } P unit() const { return *this * (1 / norm()); } };
static P T(const vec3 &v) { return {v.x, v.y, v.z}; }
static vec3 V(const P &p) { return vec3((double) p.x, (double) p.y, (double) p.z); }
static std::string s3(const vec3 &v) { return S("(", v.x, ",", v.y, ",", v.z, ")"); }
static uint64_t fp(std::initializer_list<vec3> l) { uint64_t h = 1; for (auto &p : l) h = hcomb(hcomb(hcomb(h, hd(p.x)), hd(p.y)), hd(p.z)); return h; }
static P dir(Rng &g) { for (;;) { if (g.p(.25)) { P p{(ld) g.i(-2, 2), (ld) g.i(-2, 2), (ld) g.i(-2, 2)}; if (p.norm() > 0) return p.unit(); continue; } P p{g.gauss(), g.gauss(), g.gauss()}; if (p.norm() > 1e-3) return p.unit(); } }
static P perp(Rng &g, const P &n) { for (;;) { P d = dir(g), r = d - n * d.dot(n); if (r.norm() > .05) return r.unit(); } }
struct Made { plane pl; P n; P o; ld M; bool pts; vec3 p[3]; std::string how; };
// a plane built through one of the constructors, with its true unit normal and a point of it
static Made make(Rng &g, ld s, ld M) {
    Made m; P n = dir(g); P o = g.p(.15) ? P{0, 0, 0} : dir(g) * (M * g.u()); if (g.p(.1)) o = n * (M * g.uni(-1, 1)); m.M = std::max(M, s); m.pts = false; int k = g.i(0, 2); double sc = pow(10, g.uni(-3, 3));
    if (k == 0) { for (;;) { P u = perp(g, n), v = n.cross(u); P q[3]; for (auto &x : q) x = o + u * (s * g.gauss()) + v * (s * g.gauss()); P w = (q[1] - q[0]).cross(q[2] - q[0]); ld L = std::max((q[1] - q[0]).norm(), std::max((q[2] - q[0]).norm(), (q[2] - q[1]).norm())); if (w.norm() < .03L * L * L) continue; for (int i = 0; i < 3; ++i) m.p[i] = V(q[i]); break; } P a = T(m.p[0]), b = T(m.p[1]), d = T(m.p[2]); m.n = (b - a).cross(d - a).unit(); m.o = a; m.pts = true; m.pl = plane(std::make_tuple(m.p[0], m.p[1], m.p[2])); m.how = S("points ", s3(m.p[0]), s3(m.p[1]), s3(m.p[2])); }
    else if (k == 1) { vec3 no = V(n * sc), oo = V(o); m.n = T(no).unit(); m.o = T(oo); m.pl = g.p(.8) ? plane(oo, no) : (m.o = P{0, 0, 0}, plane(no)); m.how = S("origin ", s3(V(m.o)), " normal ", s3(no)); }
    else { vec3 no = V(n * sc); double w = (double) -(n * sc).dot(o); m.n = T(no).unit(); m.o = m.n * (-w / T(no).norm()); m.pl = plane(no.x, no.y, no.z, w); m.how = S("coefficients ", s3(no), " ", w); }
    return m; }
SUITE(build, 6000, 400000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-3, 3)), M = s * powl(10, g.uni(-1, 3)); auto m = make(g, s, M); c.d << m.how; c.nontrivial(hashStr(m.how.c_str())); ld tol = 1e-11L * m.M; c.check((T(m.pl.normal) - m.n).norm() <= 1e-11L + 1e-15L * M / s * 100, "normal", [&] { return S("normal ", s3(m.pl.normal), " expected ", s3(V(m.n))); });
    if (m.pts) { for (auto &p : m.p) { c.check(fabsl(m.pl.signedDistance(p)) <= tol, "defining-point-off-plane", [&] { return S(s3(p), " distance ", m.pl.signedDistance(p)); }); } vec4 e; plane_eq_from_pts(m.p[0], m.p[1], m.p[2], e); ld L = sqrtl((ld) e.x * e.x + (ld) e.y * e.y + (ld) e.z * e.z); for (auto &p : m.p) c.check(fabsl(planeSignedDistance(p, e)) <= tol * L, "plane_eq_from_pts", [&] { return S(s3(p), " value ", planeSignedDistance(p, e), " normal length ", L); }); P en{e.x, e.y, e.z}; c.check((en.unit() - m.n).norm() <= 1e-9L, "plane_eq_from_pts-normal"); }
    c.check(fabsl(m.n.dot(T(m.pl.origin) - m.o)) <= tol, "origin-off-plane", [&] { return S("origin ", s3(m.pl.origin), " is ", m.n.dot(T(m.pl.origin) - m.o), " off"); }); c.check(fabsl(m.pl.signedDistance(m.pl.origin)) <= tol, "origin-distance");
    std::vector<vec3> q; std::vector<double> r; for (int i = 0; i < 6; ++i) q.push_back(V(m.o + dir(g) * (M * g.uni(0, 3)))); m.pl.signedDistance(q, r); if (c.check(r.size() == q.size(), "vector-size")) for (size_t i = 0; i < q.size(); ++i) { ld e = m.n.dot(T(q[i]) - m.o); c.check(fabsl(m.pl.signedDistance(q[i]) - e) <= tol * 10, "signed-distance", [&] { return S(s3(q[i]), " reported ", m.pl.signedDistance(q[i]), " expected ", e); }); c.check(r[i] == m.pl.signedDistance(q[i]), "vector-overload"); }
}
SUITE(lines, 6000, 400000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-3, 3)), M = s * powl(10, g.uni(-1, 2)); auto m = make(g, s, M); vec3 pt(9e99, 0, 0); ld tol = 1e-10L * m.M; P u = perp(g, m.n); int k = g.i(0, 3); P a = m.o + u * (M * g.gauss()) + m.n * (M * g.uni(.05, 1) * (g.p(.5) ? 1 : -1)), d; if (k < 2) { ld h = m.n.dot(a - m.o); d = u * (M * g.gauss()) - m.n * (h / (k == 0 ? g.uni(.02, .98) : (g.p(.5) ? g.uni(1.05, 5) : g.uni(-5, -.05)))); } else d = u * (M * g.uni(.1, 2));
    vec3 A = V(a), B = V(a + d); ld len = (T(B) - T(A)).norm(); bool parallel = k >= 2; c.d << m.how << " from " << s3(A) << " to " << s3(B); c.nontrivial(hcomb(hashStr(m.how.c_str()), fp({A, B}))); ld h0 = m.n.dot(T(A) - m.o), D = m.n.dot(T(B) - T(A)); auto msg = [&] { return S("point ", s3(pt), " D ", D, " N ", h0); };
    if (!parallel) { if (fabsl(D) < 1e-4L * len) return; P e = T(A) + (T(B) - T(A)) * (-h0 / D); ld amp = 1 + len / fabsl(D); double rs = pow(10, g.uni(-3, 3)); vec3 rd = (B - A) * (g.p(.5) ? rs : -rs); bool r = m.pl.planeRayIntersection(A, rd, pt); c.check(r && (T(pt) - e).norm() <= tol * amp * (1 + e.norm() / m.M), "ray", msg); pt = vec3(9e99, 0, 0); r = m.pl.planeLineIntersection(A, B, pt); if (k == 0) c.check(r && (T(pt) - e).norm() <= tol * amp * (1 + e.norm() / m.M), "line-crossing-missed", msg); else c.check(!r, "line-outside-reported", msg); }
    else { bool r = m.pl.planeRayIntersection(A, B - A, pt); c.check(!r, "ray-parallel-reported", msg); r = m.pl.planeLineIntersection(A, B, pt); c.check(!r, "line-parallel-reported", msg); }
}
SUITE(end_on_plane, 2000, 100000) { // integer coordinates, so every quantity is exact: a segment that starts or ends on the plane meets it there
    Rng &g = c.rng; auto iv = [&](int r) { for (;;) { P p{(ld) g.i(-r, r), (ld) g.i(-r, r), (ld) g.i(-r, r)}; if (p.norm() > 0) return p; } }; P n = iv(6), o = iv(20), d; do { P t = iv(9); d = n.cross(t); } while (d.norm() == 0); double f = g.p(.3) ? .25 : g.p(.5) ? 8 : 1; P on = o + d, off; do off = iv(30); while (n.dot(off - o) == 0); auto X = [&](const P &p) { return vec3((double) p.x * f, (double) p.y * f, (double) p.z * f); }; vec3 no = X(n) * (1 / f), oo = X(o), e = X(on), w = X(off); plane pl = g.p(.5) ? plane(oo, no) : plane(no.x, no.y, no.z, -no.dot(oo)); c.d << "origin " << s3(oo) << " normal " << s3(no) << " on " << s3(e) << " off " << s3(w); c.nontrivial(fp({oo, no, e, w}));
    vec3 pt(9e99, 0, 0); auto msg = [&] { return S("point ", s3(pt)); }; ld tol = 1e-12L * f * 100; bool r = pl.planeLineIntersection(e, w, pt); c.check(r && (T(pt) - T(e)).norm() <= tol, "start-on-plane", msg); pt = vec3(9e99, 0, 0); r = pl.planeLineIntersection(w, e, pt); c.check(r && (T(pt) - T(e)).norm() <= tol, "end-on-plane", msg); pt = vec3(9e99, 0, 0); r = pl.planeRayIntersection(e, w - e, pt); c.check(r && (T(pt) - T(e)).norm() <= tol, "ray-from-plane", msg); vec3 past = e + (e - w) * .5; pt = vec3(9e99, 0, 0); r = pl.planeLineIntersection(w, w + (w - e) * .5, pt); c.check(!r, "stops-short-reported", msg); pt = vec3(9e99, 0, 0); r = pl.planeLineIntersection(w, past, pt); c.check(r && (T(pt) - T(e)).norm() <= tol, "crossing", msg); c.check(pl.signedDistance(e) == 0 && planeSignedDistance(e, pl.equation) == 0, "on-plane-distance", msg);
}
SUITE(two_planes, 6000, 400000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-3, 3)), M = s * powl(10, g.uni(-1, 2)); auto m = make(g, s, M), q = make(g, s, M); int k = g.i(0, 4); if (k == 0) { double f = pow(10, g.uni(-2, 2)) * (g.p(.5) ? 1 : -1); vec3 no = m.pl.normal * f; ld d = M * g.uni(-1, 1); vec3 o = V(m.o + m.n * d); q.n = m.n; q.o = T(o); q.pl = plane(o, no); q.how = S("origin ", s3(o), " normal ", s3(no)); } if (k == 1) { P n2 = (m.n + dir(g) * powl(10, g.uni(-3, 0))).unit(); vec3 no = V(n2), o = V(q.o); q.n = T(no).unit(); q.o = T(o); q.pl = plane(o, no); q.how = S("origin ", s3(o), " normal ", s3(no)); } if (k == 2) { const char *ax = "xyz"; int i = g.i(0, 2), j = g.i(0, 2); auto mk = [&](Made &w, int t) { vec3 no(t == 0, t == 1, t == 2), o = V(w.o); no = no * g.uni(.5, 4); w.n = T(no).unit(); w.o = T(o); w.pl = plane(o, no); w.how = S(ax[t], " plane at ", s3(o)); }; mk(m, i); mk(q, j); }
    c.d << m.how << " | " << q.how; c.nontrivial(hcomb(hashStr(m.how.c_str()), hashStr(q.how.c_str()))); P dr = m.n.cross(q.n); ld sn = dr.norm(); vec3 a(9e99, 0, 0), b(9e99, 0, 0); bool r = m.pl.planePlaneIntersection(q.pl, a, b), rs; auto msg = [&] { return S("reported ", r, " points ", s3(a), s3(b), " sine of the angle ", sn); }; vec3 a2, b2; rs = q.pl.planePlaneIntersection(m.pl, a2, b2);
    if (sn < 1e-11L) { c.check(!r && !rs, "parallel-reported", msg); return; } if (sn < 1e-6L) return; c.check(r && rs, "crossing-missed", msg); if (!r || !rs) return; for (auto &x : {a, b, a2, b2}) { ld tol = 1e-11L * (m.M + T(x).norm()) / sn; c.check(fabsl(m.n.dot(T(x) - m.o)) <= tol && fabsl(q.n.dot(T(x) - q.o)) <= tol, "not-on-both", [&] { return S(s3(x), " distances ", m.n.dot(T(x) - m.o), ",", q.n.dot(T(x) - q.o), " sine ", sn); }); } c.check((T(b) - T(a)).norm() > 1e-9L * sn, "points-coincide", msg);
}
SUITE(three_planes, 5000, 300000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-3, 3)), M = s * powl(10, g.uni(-1, 2)); Made m[3] = {make(g, s, M), make(g, s, M), make(g, s, M)}; int k = g.i(0, 2); if (k == 0) { P n = (m[0].n + m[1].n * g.uni(-2, 2)); if (n.norm() < .1) n = m[0].n; n = n.unit(); vec3 no = V(n), o = V(m[2].o); m[2].n = T(no).unit(); m[2].pl = plane(o, no); m[2].o = T(o); m[2].how = S("origin ", s3(o), " normal ", s3(no)); } uint64_t h = 1; for (auto &x : m) { c.d << x.how << " | "; h = hcomb(h, hashStr(x.how.c_str())); } c.nontrivial(h); ld det = m[0].n.dot(m[1].n.cross(m[2].n)); vec3 pt(9e99, 0, 0); bool r = m[0].pl.planePlanePlaneIntersection(m[1].pl, m[2].pl, pt); auto msg = [&] { return S("reported ", r, " point ", s3(pt), " determinant ", det); };
    if (fabsl(det) < 1e-10L) { c.check(!r, "dependent-reported", msg); return; } if (fabsl(det) < 1e-6L) return; if (!c.check(r, "common-point-missed", msg)) return; for (auto &x : m) { ld tol = 1e-11L * (x.M + T(pt).norm()) / fabsl(det); c.check(fabsl(x.n.dot(T(pt) - x.o)) <= tol, "not-on-all", msg); }
}
SUITE(coplanar, 5000, 300000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-2, 2)); P n = dir(g), o = dir(g) * (s * g.uni(0, 5)), u = perp(g, n), v = n.cross(u); int cnt = g.i(3, 12), k = g.i(0, 4); std::vector<vec3> p; for (int i = 0; i < cnt; ++i) p.push_back(V(k == 1 ? o + u * (s * g.uni(-1, 1)) : (k == 2 && i < cnt - 2) ? o + u * (s * g.uni(-1, 1)) : o + u * (s * g.uni(-1, 1)) + v * (s * g.uni(-1, 1)))); if (g.p(.2)) p[1] = p[0]; double eps = (double) (s * powl(10, g.uni(-9, -3))); bool want = true; if (k >= 3) { int i = g.i(0, cnt - 1); p[i] = V(T(p[i]) + n * (s * powl(10, g.uni(-2, 0)))); }
    // truth: thickness of the set over the best plane through three of its points, and the worst pair-insensitive bound
    ld ext = 0, thick = 1e300L, maxd = 0; for (auto &a : p) for (auto &b : p) ext = std::max(ext, (T(a) - T(b)).norm()); bool any = false; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t l = 0; l < j; ++l) { P w = (T(p[j]) - T(p[i])).cross(T(p[l]) - T(p[i])); if (w.norm() < 1e-6L * ext * ext) continue; any = true; w = w.unit(); ld m = 0; for (auto &x : p) m = std::max(m, fabsl(w.dot(T(x) - T(p[i])))); thick = std::min(thick, m); maxd = std::max(maxd, m); } if (!any) thick = maxd = 0; c.d << "eps " << eps << " thickness " << thick; for (auto &x : p) c.d << s3(x); uint64_t h = 1; for (auto &x : p) h = hcomb(h, fp({x})); c.nontrivial(h); want = thick == 0 ? true : false; g.shuffle(p); bool r = isPtsCoplanar(p, eps); auto msg = [&] { return S("reported ", r, " with eps ", eps, " thickness ", thick, " to ", maxd, " over ", p.size(), " points"); }; (void) want;
    if (p.size() <= 3) { c.check(r, "three-points-not-coplanar", msg); return; } if (any && thick > 20 * eps) c.check(!r, "non-coplanar-accepted", msg); if (!any || maxd < eps / 20) c.check(r, "coplanar-rejected", msg);
}
SUITE(frames, 4000, 200000) {
    Rng &g = c.rng; ld s = powl(10, g.uni(-2, 2)); P n = dir(g), x = perp(g, n), y = n.cross(x), o = dir(g) * (s * g.uni(0, 5)); vec3 O = V(o), X = V(x), Y = V(y); bool pts = g.p(.4); vec3 q[3]; cplane f; if (pts) { for (;;) { for (auto &p : q) p = V(o + x * (s * g.gauss()) + y * (s * g.gauss())); P w = (T(q[1]) - T(q[0])).cross(T(q[2]) - T(q[0])); if (w.norm() > .05L * s * s) { n = w.unit(); break; } } f = cplane(std::make_tuple(q[0], q[1], q[2])); O = q[0]; c.d << s3(q[0]) << s3(q[1]) << s3(q[2]); c.nontrivial(fp({q[0], q[1], q[2]})); } else { f = cplane(O, X, Y); c.d << s3(O) << s3(X) << s3(Y); c.nontrivial(fp({O, X, Y})); }
    ld M = o.norm() + 6 * s, tol = 1e-9L * M; c.check(fabsl(T(f.xaxis).norm() - 1) < 1e-11L && fabsl(T(f.yaxis).norm() - 1) < 1e-11L && fabsl(T(f.xaxis).dot(T(f.yaxis))) < 1e-9L && fabsl(T(f.xaxis).dot(n)) < 1e-9L && fabsl(T(f.yaxis).dot(n)) < 1e-9L && T(f.xaxis).cross(T(f.yaxis)).dot(n) > 0, "axes", [&] { return S("axes ", s3(f.xaxis), s3(f.yaxis)); }); std::vector<vec3> in, out; for (int i = 0; i < 5; ++i) { double u = (double) (s * g.uni(-3, 3)), v = (double) (s * g.uni(-3, 3)), h = (double) (s * g.uni(-3, 3)); vec3 r, w; f.evaluate(u, v, r); c.check(fabsl(n.dot(T(r) - T(O))) <= tol, "evaluated-point-off-plane", [&] { return S("(", u, ",", v, ") -> ", s3(r), " off by ", n.dot(T(r) - T(O))); }); c.check(fabsl(f.signedDistance(r)) <= tol, "signed-distance-of-plane-point", [&] { return S(s3(r), " reported ", f.signedDistance(r)); }); f.evaluateInv(r, w); c.check(fabsl(w.x - u) <= tol && fabsl(w.y - v) <= tol && fabsl(w.z) <= tol, "round-trip", [&] { return S("(", u, ",", v, ") -> ", s3(r), " -> ", s3(w)); }); vec3 t = V(T(r) + n * (ld) h); f.evaluateInv(t, w); in.push_back(t); c.check(fabsl(w.x - u) <= tol && fabsl(w.y - v) <= tol && fabsl(w.z - h) <= tol, "height", [&] { return S("expected height ", h, " got ", s3(w)); }); c.check(fabsl(f.signedDistance(t) - h) <= tol, "signed-distance", [&] { return S("expected ", h, " got ", f.signedDistance(t)); }); }
    f.evaluateInv(in, out); if (c.check(out.size() == in.size(), "vector-size")) for (size_t i = 0; i < in.size(); ++i) { vec3 w; f.evaluateInv(in[i], w); c.check((T(w) - T(out[i])).norm() <= tol, "vector-overload"); } if (pts) for (auto &p : q) c.check(fabsl(f.signedDistance(p)) <= tol, "defining-point-off-plane");
}
HARNESS_MAIN
