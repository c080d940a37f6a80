// Value semantics: random programs over a pool of curves, surfaces, trees. Every object has a snapshot; after each
// step every object that the step did not name as changed must equal its snapshot bit for bit, also in what it evaluates to.
#include "gen.h"
#include "cmmcore/ssx.h"
#include "cmmcore/ccx.h"
#include "cmmcore/csx.h"
#include "cmmcore/point_inversion.h"
#include "cmmcore/kdtree.h"
#include "cmmcore/bvh.hpp"
using namespace G;
using cmmcore::AABB;
typedef std::vector<uint64_t> Bits;
static void put(Bits &b, double d) { b.push_back(hd(d)); }
static void put(Bits &b, const vec3 &v) { put(b, v.x); put(b, v.y); put(b, v.z); }
static void put(Bits &b, const AABB &a) { put(b, a.min); put(b, a.max); }
// every observable of a curve: fields, accessors, and samples of the curve over its domain
static Bits bits(const NURBSCurve &k) {
    Bits b; b.push_back(k.get_degree()); b.push_back(k._periodic); b.push_back(k.control_points.size()); for (auto &v : k.control_points) { put(b, v.x); put(b, v.y); put(b, v.z); put(b, v.w); } b.push_back(k.knots.size()); for (double u : k.knots) put(b, u);
    put(b, k.interval()[0]); put(b, k.interval()[1]); put(b, k.aabb()); b.push_back(k.is_periodic()); b.push_back(k._hull.size());
    if (!k._periodic) for (int i = 0; i <= 4; ++i) { vec3 r; k.evaluate(k._interval[0] + (k._interval[1] - k._interval[0]) * (i == 4 ? 1. : i / 4.), r); put(b, r); }
    return b;
}
static Bits bits(const NURBSSurface &k) {
    Bits b; b.push_back(k._degree[0]); b.push_back(k._degree[1]); auto sh = k.shape(); b.push_back(sh[0]); b.push_back(sh[1]); for (auto &r : k._control_points) { b.push_back(r.size()); for (auto &v : r) { put(b, v.x); put(b, v.y); put(b, v.z); put(b, v.w); } }
    for (auto *U : {&k._knots_u, &k._knots_v}) { b.push_back(U->size()); for (double u : *U) put(b, u); } auto iv = k.interval(); for (auto &i : iv) { put(b, i[0]); put(b, i[1]); } put(b, k.aabb());
    for (int i = 0; i <= 2; ++i) for (int j = 0; j <= 2; ++j) { vec3 r; k.evaluate(iv[0][0] + (iv[0][1] - iv[0][0]) * i / 2., iv[1][0] + (iv[1][1] - iv[1][0]) * j / 2., r); put(b, r); }
    return b;
}
template<class T> struct Slot { T obj; Bits model; };
// what a curve should look like is decided by the reference, so a copy that keeps only some fields is seen
static void truth(Case &c, const NURBSCurve &k, const char *what) {
    if (k.control_points.empty()) return; auto r = toRef(k); ld sc = scaleOf(r); double lo = k.interval()[0], hi = k.interval()[1]; c.check(lo == k.knots[k._degree] && hi == k.knots[k.control_points.size()], "domain", [&] { return S(what, ": ", lo, "..", hi); });
    for (double f : {0., .37, 1.}) { vec3 p; double t = f == 1 ? hi : lo + f * (hi - lo); k.evaluate(t, p); c.check(gap(p, R::eval(r, t)) <= 1e-9L * sc, "shape", [&] { return S(what, " at ", t, ": ", str(p)); }); }
}
static double perturb(Rng &g) { return g.uni(-2, 2); }
SUITE(curves, 700, 30000) {
    Rng &g = c.rng; typedef Slot<NURBSCurve> S1; std::vector<S1> pool; int n0 = g.i(2, 5); CurveOpt o; o.maxDeg = 4; o.open = .15; o.maxExtra = 5;
    for (int i = 0; i < n0; ++i) { auto k = curve(g, o); if (g.p(.15)) { auto P = k.control_points; if (P.size() > (size_t) k._degree + 1) k = NURBSCurve(P, k._degree, true); } describe(c, k); c.nontrivial(fp(k)); pool.push_back({k, bits(k)}); }
    int steps = g.i(4, 16); std::string last;
    auto verify = [&](int except = -1) { for (size_t i = 0; i < pool.size(); ++i) if ((int) i != except) { Bits b = bits(pool[i].obj); if (!c.check(b == pool[i].model, "object-changed", [&] { size_t k = 0; while (k < b.size() && k < pool[i].model.size() && b[k] == pool[i].model[k]) ++k; return S("after ", last, ": object ", i, " differs from its state at entry ", k, " of ", b.size(), "/", pool[i].model.size()); })) pool[i].model = b; } };
    for (int s = 0; s < steps; ++s) {
        int i = g.i(0, (int) pool.size() - 1), j = g.i(0, (int) pool.size() - 1), op = g.i(0, 17); last = S("op", op, " on ", i, " with ", j); c.d << last << "; "; NURBSCurve &a = pool[i].obj;
        double lo = a._interval[0], hi = a._interval[1]; bool per = a._periodic;
        switch (op) {
            case 0: { NURBSCurve k(a); Bits m = pool[i].model; c.check(bits(k) == m, "copy-construct"); pool.push_back({k, m}); break; }
            case 1: { Bits m = pool[i].model; NURBSCurve tmp(a), k(std::move(tmp)); c.check(bits(k) == m, "move-construct"); pool.push_back({std::move(k), m}); break; }
            case 2: { Bits m = pool[j].model; NURBSCurve &r = (a = pool[j].obj); c.check(&r == &a, "assign-result"); pool[i].model = m; break; }
            case 3: { NURBSCurve tmp = pool[j].obj; a = std::move(tmp); pool[i].model = Bits(pool[j].model); break; }
            case 4: { NURBSCurve &al = a; a = al; break; }
            case 5: std::swap(pool[i].obj, pool[j].obj); std::swap(pool[i].model, pool[j].model); break;
            case 6: g.shuffle(pool); break;
            case 7: if (pool.size() > 2) pool.erase(pool.begin() + i); break;
            case 8: { std::vector<NURBSCurve> v; v.push_back(a); v.push_back(pool[j].obj); v.insert(v.begin(), v[0]); for (int k = 0; k < 5; ++k) v.emplace_back(v[k % v.size()]); c.check(bits(v[0]) == pool[i].model && bits(v[1]) == pool[i].model && bits(v[2]) == pool[j].model && bits(v[3]) == pool[i].model && bits(v[5]) == pool[j].model, "vector-elements"); v[1].control_points[0].x += 1; v.erase(v.begin()); c.check(bits(v[1]) == pool[j].model, "vector-neighbour"); break; }
            case 9: { auto P = a.control_points; for (auto &v : P) { double d = perturb(g); v.x += d * v.w; } auto Q = P; size_t before = a.knots.size(); a.set_control_points(P); bool same = P.size() == Q.size() && a.control_points.size() == Q.size(); for (size_t k = 0; same && k < Q.size(); ++k) for (int d = 0; d < 4; ++d) same = same && P[k][d] == Q[k][d] && a.control_points[k][d] == Q[k][d]; c.check(same && a.knots.size() == before, "set-control-points"); pool[i].model = bits(a); break; }
            case 10: if (a._degree >= 1) { double t = interior(g, a.knots, a._degree, (int) a.control_points.size() - 1, .05); int room = a._degree - mult(a.knots, snapped(a.knots, t)); if (room > 0 && !nearKnot(a.knots, t, 1e-6)) { a.insert_knot(t, g.i(1, room)); pool[i].model = bits(a); } } break;
            case 11: a.normalize_knots(); c.check(a.knots.front() == 0 && std::fabs(a.knots.back() - 1) <= 1e-14 && a.interval()[0] == a.knots[a._degree] && a.interval()[1] == a.knots[a.control_points.size()], "normalised-domain"); pool[i].model = bits(a); break;
            case 12: { auto U = a.knots; for (auto &u : U) u = 3 + 2 * u; auto V = U; a.set_knots(U); c.check(a.knots == V && a.interval()[0] == 3 + 2 * lo && a.interval()[1] == 3 + 2 * hi, "set-knots"); pool[i].model = bits(a); break; }
            case 13: { // read-only calls
                vec3 p, q; std::vector<vec3> ds(3); a.evaluate(lo + g.u() * (hi - lo), p); a.derivative(lo + g.u() * (hi - lo), q); a.derivative(g.uni(lo, hi), ds, std::min(2, a._degree)); a.get_derivative(); (void) a(g.uni(lo, hi)); a.get_control_points3d(); a.is_periodic(); (void) a.get_knots();
                std::vector<NURBSCurve> bz; a.decompose(bz); double t = lo + (hi - lo) * g.uni(.2, .8); if (!nearKnot(a.knots, t, 1e-6)) { auto pr = a.split(t, g.p(.3)); pr.first.control_points[0].x += 5; pr.second.knots.back() += 0; } for (auto &k : bz) { k.control_points.back().y -= 3; k.normalize_knots(); } break; }
                break;
            case 14: { a.length(); a.length(lo + .7 * (hi - lo)); { double t = lo + .4 * (hi - lo); a.lengthAt(a.length(t), lo, t); } a.bbox(); a.rebuildAABB(); std::ostringstream os; int id = 1; a.toSTEP(os, id); auto z = pool[j].obj; NURBSCurve jn; NURBSCurve shifted = z; if (!z._periodic) { vec3 e; a.evaluate(hi, e); vec3 st; z.evaluate(z._interval[0], st); for (auto &v : shifted.control_points) { v.x += (e.x - st.x) * v.w; v.y += (e.y - st.y) * v.w; v.z += (e.z - st.z) * v.w; } Bits m = bits(shifted); a.join(shifted, jn); c.check(bits(shifted) == m, "join-changed-argument"); if (!jn.control_points.empty()) jn.control_points[0].x += 7; } }
                break;
            case 15: if (true) { { std::vector<std::pair<double, double>> out; NURBSCurve far = pool[j].obj; for (auto &v : far.control_points) v.z += 3000 * v.w; far.rebuildAABB(); Bits m = bits(far); cmmcore::ccx(a, far, 1e-2, out); c.check(out.empty() && bits(far) == m, "ccx-argument"); } }
                break;
            case 16: { NURBSCurve dd; a.get_derivative(dd); dd.control_points[0].x += 1; dd = a; Bits m = pool[i].model; c.check(bits(dd) == m, "assign-over-derivative"); dd.control_points.pop_back(); dd.knots.clear(); dd._interval = {5, 6}; dd._aabb = AABB(vec3(0, 0, 0), vec3(1, 1, 1)); } break;
            case 17: { NURBSCurve fresh; fresh = a; c.check(bits(fresh) == pool[i].model, "assign-to-default"); NURBSCurve &r = fresh; r.control_points[0].z += 1; r.rebuildAABB(); std::array<NURBSCurve, 2> arr{a, pool[j].obj}; auto arr2 = arr; arr[0] = arr[1]; c.check(bits(arr2[0]) == pool[i].model && bits(arr2[1]) == pool[j].model && bits(arr[0]) == pool[j].model, "array-copies"); if (g.p(.3) && !per && a.control_points.size() > (size_t) a._degree + 1) { a.make_periodic(); pool[i].model = bits(a); } break; }
        }
        verify(); if (c.failed) return;
    }
    for (auto &s : pool) { auto k = s.obj; if (!k._periodic) { truth(c, k, "final"); AABB bb(vec3(1e300, 1e300, 1e300), vec3(-1e300, -1e300, -1e300)); for (auto &v : k.control_points) bb.expand(v.to_vec3()); auto &m = k.aabb(); c.check(m.min.x == bb.min.x && m.min.y == bb.min.y && m.min.z == bb.min.z && m.max.x == bb.max.x && m.max.y == bb.max.y && m.max.z == bb.max.z, "final-box"); } }
}
SUITE(surfaces, 400, 16000) {
    Rng &g = c.rng; typedef Slot<NURBSSurface> S2; std::vector<S2> pool; int n0 = g.i(2, 4); SurfOpt o; o.maxDeg = 3; o.open = .15; o.maxExtra = 3;
    for (int i = 0; i < n0; ++i) { auto k = surface(g, o); describe(c, k); c.nontrivial(fp(k)); pool.push_back({k, bits(k)}); }
    int steps = g.i(4, 14); std::string last;
    auto verify = [&] { for (size_t i = 0; i < pool.size(); ++i) { Bits b = bits(pool[i].obj); if (!c.check(b == pool[i].model, "object-changed", [&] { return S("after ", last, ": object ", i); })) pool[i].model = b; } };
    auto sameBits = [&](const NURBSSurface &k, int i) { return bits(k) == pool[i].model; };
    for (int s = 0; s < steps; ++s) {
        int i = g.i(0, (int) pool.size() - 1), j = g.i(0, (int) pool.size() - 1), op = g.i(0, 14); last = S("op", op, " on ", i, " with ", j); c.d << last << "; "; NURBSSurface &a = pool[i].obj; auto iv = a._interval;
        auto pu = [&] { return interior(g, a._knots_u, a._degree[0], (int) a._size[0] - 1, .05); }; auto pv = [&] { return interior(g, a._knots_v, a._degree[1], (int) a._size[1] - 1, .05); };
        switch (op) {
            case 0: { NURBSSurface k(a); c.check(sameBits(k, i), "copy-construct"); Bits m = pool[i].model; pool.push_back({k, m}); break; }
            case 1: { NURBSSurface tmp(a), k(std::move(tmp)); c.check(sameBits(k, i), "move-construct"); Bits m = pool[i].model; pool.push_back({std::move(k), m}); break; }
            case 2: { Bits m = pool[j].model; a = pool[j].obj; pool[i].model = m; break; }
            case 3: { NURBSSurface tmp = pool[j].obj; a = std::move(tmp); pool[i].model = Bits(pool[j].model); tmp = pool[j].obj; c.check(sameBits(tmp, j), "reuse-moved-from"); break; }
            case 4: { NURBSSurface &al = a; a = al; break; }
            case 5: std::swap(pool[i].obj, pool[j].obj); std::swap(pool[i].model, pool[j].model); break;
            case 6: g.shuffle(pool); break;
            case 7: if (pool.size() > 2) pool.erase(pool.begin() + i); break;
            case 8: { std::array<NURBSSurface, 4> q, q2; a.subdivide(q[0], q[1], q[2], q[3]); q2 = q; for (int k = 0; k < 4; ++k) c.check(bits(q2[k]) == bits(q[k]), "array-copy"); q[0]._control_points[0][0].x += 4; q[3] = q[0]; q[0]._control_points[0][0].y += 4; c.check(bits(q[3]) != bits(q[0]), "copy-not-independent"); break; }
            case 9: { double t = pu(); int room = a._degree[0] - mult(a._knots_u, snapped(a._knots_u, t)); if (room > 0 && !nearKnot(a._knots_u, t, 1e-6)) { a.insert_knot_u(t, g.i(1, room)); pool[i].model = bits(a); } break; }
            case 10: { double t = pv(); int room = a._degree[1] - mult(a._knots_v, snapped(a._knots_v, t)); if (room > 0 && !nearKnot(a._knots_v, t, 1e-6)) { a.insert_knot_v(t, g.i(1, room)); pool[i].model = bits(a); } break; }
            case 11: { a._control_points[g.i(0, (int) a._size[0] - 1)][g.i(0, (int) a._size[1] - 1)].x += perturb(g); a.rebuildAABB(); pool[i].model = bits(a); break; }
            case 12: { const NURBSSurface &k = a; vec3 r; double u = g.uni(iv[0][0] + 2e-5, iv[0][1] - 2e-5), v = g.uni(iv[1][0] + 2e-5, iv[1][1] - 2e-5); k.evaluate(u, v, r); k.derivative_u(u, v, r); k.derivative_v(u, v, r); k.normal(u, v, r); auto d = k.get_derivative(g.i(0, 1)); auto e = d; d._control_points[0][0].x += 1; (void) e; auto s1 = k.split_surface_u(.5 * (iv[0][0] + iv[0][1])), s2 = k.split_surface_v(.5 * (iv[1][0] + iv[1][1])); s1.first._control_points[0][0].x += 9; s2.second._control_points[0][0].x += 9; k.extract_isocurve(u, SurfaceParameter::U); k.extract_isocurve(v, SurfaceParameter::V); std::array<NURBSCurve, 4> bd; k.extract_surface_boundaries(bd); for (auto &q : bd) q.control_points[0].x += 1; std::vector<NURBSSurface> bz; k.decompose(bz); for (auto &q : bz) q._control_points[0][0].z += 3; std::ostringstream os; int id = 1; k.toSTEP(os, id); auto f = k.control_points_flat3d(); f[0].x += 1; break; }
            case 13: { NURBSSurface far = pool[j].obj; for (auto &r : far._control_points) for (auto &v : r) v.z += 5000 * v.w; far.rebuildAABB(); Bits m = bits(far); cmmcore::Intersection ix; cmmcore::findStartIntersectionPoints(a, far, 1e-2, ix); std::vector<cmmcore::IntersectionPoint> ip; auto bz1 = a; (void) bz1; auto cv = far.extract_isocurve(far._interval[0][0], SurfaceParameter::U); Bits mc = bits(cv); cmmcore::CSXIntersections cr; if (cv.length() > 1e-3) cmmcore::csx(cv, a, cr, 1e-2); c.check(ix.points.empty() && ix.patches.empty() && cr.empty(), "far-intersection"); c.check(bits(far) == m && bits(cv) == mc, "arguments"); break; }
            case 14: { auto U = static_cast<const NURBSSurface &>(a).knots_u(); U[0] += 1; auto sh = static_cast<const NURBSSurface &>(a).shape(); sh[0]++; auto ii = static_cast<const NURBSSurface &>(a).interval(); ii[0][0] -= 1; NURBSSurface fresh; fresh = a; c.check(sameBits(fresh, i), "assign-to-default"); fresh.knots_u()[0] -= 1; fresh.interval()[0][0] = 9; fresh.shape()[0] = 1; break; }
        }
        verify(); if (c.failed) return;
    }
    for (auto &s : pool) { auto r = toRef(s.obj); ld sc = scaleOf(r); for (double f : {0., .41, 1.}) { auto iv = s.obj._interval; double u = f == 1 ? iv[0][1] : iv[0][0] + f * (iv[0][1] - iv[0][0]), v = f == 0 ? iv[1][1] : iv[1][0] + .3 * (iv[1][1] - iv[1][0]); vec3 p; s.obj.evaluate(u, v, p); c.check(gap(p, R::eval(r, u, v)) <= 1e-9L * sc, "shape"); } }
}
static void flatten(const cmmcore::BVHNode *n, std::string &o) { if (!n) { o += "-"; return; } o += S("(", n->bounding_box.min.x, " ", n->bounding_box.max.z, " ", (const void *) n->object); flatten(n->left.get(), o); flatten(n->right.get(), o); o += ")"; }
static void addresses(const cmmcore::BVHNode *n, std::set<const void *> &o) { if (!n) return; o.insert(n); addresses(n->left.get(), o); addresses(n->right.get(), o); }
SUITE(bvh, 300, 8000) {
    Rng &g = c.rng; using namespace cmmcore; int n = g.i(1, 20); std::vector<Object3D> ob; ob.reserve(n); for (int i = 0; i < n; ++i) { vec3 p(g.uni(-9, 9), g.uni(-9, 9), g.uni(-9, 9)); ob.emplace_back(AABB(p, p + vec3(g.u(), g.u(), g.u())), i); c.d << str(p); c.nontrivial(hd(p.x)); } std::vector<Object3D *> ps; for (auto &o : ob) ps.push_back(&o);
    auto root = build_bvh(ps, g.p(.5)); std::string before; flatten(root.get(), before); { BVHNode cp(*root); std::string s; flatten(&cp, s); c.check(s == before, "copy-differs"); std::set<const void *> A, B; addresses(root.get(), A); addresses(&cp, B); for (auto p : A) c.check(!B.count(p), "copy-shares-nodes"); }
    std::string after; flatten(root.get(), after); c.check(after == before, "destroying-copy-changed-source"); BVHNode other; other = *root; other = other; std::string so; flatten(&other, so); c.check(so == before, "assignment-differs");
    if (root->left) { const BVHNode *sub = g.p(.5) ? root->left.get() : root->right.get(); while (g.p(.4) && sub->left) sub = sub->left.get(); std::string want, got; flatten(sub, want); *root = *sub; flatten(root.get(), got); c.check(got == want, "assign-own-subtree"); flatten(&other, (so = "", so)); c.check(so == before, "copy-changed-by-source"); }
    BVHNode a = other, b; std::swap(a, b); std::string sb; flatten(&b, sb); c.check(sb == before && !a.left && !a.right, "swap"); std::vector<BVHNode> v; for (int k = 0; k < 5; ++k) v.push_back(other); v.erase(v.begin()); for (auto &x : v) { std::string s; flatten(&x, s); c.check(s == before, "vector"); }
}
static std::vector<std::tuple<double, double, double>> all(const cmmcore::KDTree3D &t) { auto r = t.rangeSearch(vec3(-1e99, -1e99, -1e99), vec3(1e99, 1e99, 1e99)); std::vector<std::tuple<double, double, double>> o; for (auto &p : r) o.emplace_back(p.x, p.y, p.z); std::sort(o.begin(), o.end()); return o; }
SUITE(kdtree, 300, 8000) {
    Rng &g = c.rng; using namespace cmmcore; typedef std::vector<std::tuple<double, double, double>> L; struct T { KDTree3D t; L m; }; std::vector<T> pool(2); int steps = g.i(3, 14);
    auto vert = [&](const char *what) { for (auto &x : pool) { c.check(x.t.size() == x.m.size() && all(x.t) == x.m, "tree-changed", [&] { return S("after ", what, ": ", x.t.size(), " stored, expected ", x.m.size()); }); } };
    for (int s = 0; s < steps; ++s) { int i = g.i(0, (int) pool.size() - 1), j = g.i(0, (int) pool.size() - 1), op = g.i(0, 6); c.d << op << ":" << i << "," << j << " "; const char *what = "";
        switch (op) {
            case 0: { std::vector<vec3> p; int n = g.i(0, 12); pool[i].m.clear(); for (int k = 0; k < n; ++k) { p.emplace_back(g.i(-9, 9), g.i(-9, 9), g.uni(-9, 9)); pool[i].m.emplace_back(p.back().x, p.back().y, p.back().z); c.nontrivial(hd(p.back().z)); } std::sort(pool[i].m.begin(), pool[i].m.end()); pool[i].t.build(p); what = "build"; break; }
            case 1: for (int k = g.i(1, 4); k--;) { vec3 p(g.i(-9, 9), g.i(-9, 9), g.uni(-9, 9)); pool[i].t.insert(p); pool[i].m.emplace_back(p.x, p.y, p.z); c.nontrivial(hd(p.z)); } std::sort(pool[i].m.begin(), pool[i].m.end()); what = "insert"; break;
            case 2: pool[i].t = pool[j].t; pool[i].m = L(pool[j].m); what = "assign"; break;
            case 3: { T t{KDTree3D(pool[i].t), pool[i].m}; if (pool.size() < 5) pool.push_back(t); what = "copy"; break; }
            case 4: { KDTree3D t(pool[j].t), u(std::move(t)); pool[i].m = L(pool[j].m); pool[i].t = std::move(u); what = "move"; break; }
            case 5: std::swap(pool[i].t, pool[j].t); std::swap(pool[i].m, pool[j].m); what = "swap"; break;
            case 6: if (pool.size() > 2) pool.erase(pool.begin() + i); what = "erase"; break;
        }
        vert(what); }
}
HARNESS_MAIN
