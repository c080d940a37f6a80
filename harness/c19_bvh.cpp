// Bounding volume hierarchies against a linear scan.
#include "common.h"
#include "cmmcore/bvh.hpp"
using namespace H; using namespace cmmcore;
static bool eq(const vec3 &a, const vec3 &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool encl(const AABB &o, const AABB &i) { return o.min.x <= i.min.x && o.min.y <= i.min.y && o.min.z <= i.min.z && o.max.x >= i.max.x && o.max.y >= i.max.y && o.max.z >= i.max.z; }
static bool meet(const AABB &a, const AABB &b) { for (int k = 0; k < 3; ++k) if (a.min[k] > b.max[k] || b.min[k] > a.max[k]) return false; return true; }
static std::string str(const AABB &b) { return S("[(", b.min.x, ",", b.min.y, ",", b.min.z, ")(", b.max.x, ",", b.max.y, ",", b.max.z, ")]"); }
// kinds: spread, clustered, lattice (touching and repeated coordinates), nested, flat/point boxes, identical, the same point or line only
static std::vector<Object3D> objects(Case &c, int n, int kind, double sc) {
    Rng &g = c.rng; std::vector<Object3D> r; vec3 cen[3]; for (auto &x : cen) x = vec3(g.uni(-10, 10), g.uni(-10, 10), g.uni(-10, 10)); AABB same;
    for (int i = 0; i < n; ++i) {
        vec3 lo, ex;
        if (kind == 0) { lo = vec3(g.uni(-10, 10), g.uni(-10, 10), g.uni(-10, 10)); ex = vec3(g.uni(0, 3), g.uni(0, 3), g.uni(0, 3)); }
        else if (kind == 1) { auto q = cen[g.i(0, 2)]; lo = q + vec3(g.gauss(), g.gauss(), g.gauss()); ex = vec3(g.uni(0, 1), g.uni(0, 1), g.uni(0, 1)); }
        else if (kind == 2) { lo = vec3(g.i(-3, 3), g.i(-3, 3), g.i(-3, 3)); ex = vec3(g.i(0, 2), g.i(0, 2), g.i(0, 2)); }
        else if (kind == 3) { double s = g.uni(.1, 10); lo = vec3(-s, -s, -s); ex = vec3(2 * s, 2 * s, 2 * s); }
        else if (kind == 4) { lo = vec3(g.uni(-2, 2), g.uni(-2, 2), g.p(.5) ? 0 : g.uni(-2, 2)); ex = vec3(g.p(.4) ? 0 : g.uni(0, 1), g.p(.4) ? 0 : g.uni(0, 1), 0); }
        else if (kind == 5) { lo = vec3(1, 2, -3); ex = vec3(1, 1, 1); }
        else { lo = vec3(1, 2, -3); ex = vec3(0, 0, 0); if (kind == 7) ex.z = 2; }
        lo = lo * sc; ex = ex * sc; r.emplace_back(AABB(lo, lo + ex), i + 1); c.d << str(r.back().bounding_box);
    }
    return r;
}
static void leaves(const BVHNode *n, std::vector<const BVHNode *> &out) { if (!n) return; if (n->object) { out.push_back(n); return; } leaves(n->left.get(), out); leaves(n->right.get(), out); }
static void walk(Case &c, const BVHNode *n, const char *tag) { if (!n) return;
    if (n->object) { c.check(encl(n->bounding_box, n->object->bounding_box), S(tag, "leaf-box").c_str()); c.check(!n->left && !n->right, S(tag, "leaf-with-children").c_str()); return; }
    c.check(n->left || n->right, S(tag, "inner-node-empty").c_str());
    for (auto *k : {n->left.get(), n->right.get()}) if (k) { c.check(encl(n->bounding_box, k->bounding_box), S(tag, "not-enclosing"), [&] { return str(n->bounding_box) + " child " + str(k->bounding_box); }); walk(c, k, tag); } }
static void checkTree(Case &c, const BVHNode *root, const std::vector<Object3D> &ob, const char *tag) {
    std::vector<const BVHNode *> l; leaves(root, l); std::multiset<int> a, b; for (auto *x : l) a.insert(x->object->id); for (auto &o : ob) b.insert(o.id); c.check(a == b, S(tag, "leaves"), [&] { return S(a.size(), " leaves for ", b.size(), " objects"); }); walk(c, root, tag);
}
static void checkQuery(Case &c, const BVHNode *root, const std::vector<Object3D> &ob, const AABB &q, const char *tag) {
    std::vector<const Object3D *> res; traverse_bvh(root, q, res); std::multiset<int> a, b; for (auto *x : res) a.insert(x->id); for (auto &o : ob) if (meet(o.bounding_box, q)) b.insert(o.id);
    c.check(a == b, S(tag, "box-query"), [&] { return S("query ", str(q), " returned ", a.size(), " expected ", b.size()); });
}
static void checkPoint(Case &c, const BVHNode *root, const std::vector<Object3D> &ob, const vec3 &p) {
    std::vector<const Object3D *> res; contains_point(root, p, res); std::multiset<int> a, b; for (auto *x : res) a.insert(x->id); for (auto &o : ob) if (encl(o.bounding_box, AABB(p, p))) b.insert(o.id);
    c.check(a == b, "point-query", [&] { return S("point ", p.x, ",", p.y, ",", p.z, " returned ", a.size(), " expected ", b.size()); });
}
static void checkPairs(Case &c, const BVHNode *r1, const BVHNode *r2, const std::vector<Object3D> &o1, const std::vector<Object3D> &o2, const char *tag) {
    std::multiset<std::pair<int, int>> want; for (auto &a : o1) for (auto &b : o2) if (meet(a.bounding_box, b.bounding_box)) want.insert({a.id, b.id});
    for (int v = 0; v < 2; ++v) { std::vector<std::pair<const BVHNode *, const BVHNode *>> res; if (v) intersect_bvh_iterative(r1, r2, res); else intersect_bvh(r1, r2, res); std::multiset<std::pair<int, int>> got; for (auto &p : res) { if (!c.check(p.first && p.second && p.first->object && p.second->object, S(tag, "pair-not-leaves").c_str())) return; got.insert({p.first->object->id, p.second->object->id}); }
        c.check(got == want, S(tag, v ? "pairs-iterative" : "pairs-recursive"), [&] { return S("got ", got.size(), " pairs, expected ", want.size()); }); }
}
static vec3 pick(Rng &g, const std::vector<Object3D> &ob, double sc) { bool off = g.p(.5); if (ob.empty() || g.p(.3)) return vec3(g.uni(-11, 11), g.uni(-11, 11), g.uni(-11, 11)) * sc; auto &b = g.pick(ob).bounding_box; auto f = [&](double lo, double hi) { int k = g.i(0, 4); return k == 0 ? lo : k == 1 ? hi : k == 2 && off ? (g.p(.5) ? (g.p(.5) ? std::nextafter(lo, -1e300) : lo - 1e-10 * sc) : (g.p(.5) ? std::nextafter(hi, 1e300) : hi + 1e-10 * sc)) : g.uni(lo, hi); }; return vec3(f(b.min.x, b.max.x), f(b.min.y, b.max.y), f(b.min.z, b.max.z)); }
SUITE(query, 400, 12000) {
    Rng &g = c.rng; int n = g.p(.1) ? g.i(0, 2) : g.p(.15) ? g.i(60, 200) : g.i(3, 40), kind = g.i(0, 7); double sc = g.p(.25) ? 1e-3 : g.p(.2) ? 1e3 : 1; bool up = g.p(.5); c.d << "n=" << n << " kind=" << kind << " scale=" << sc << " bottom_up=" << up << " "; auto ob = objects(c, n, kind, sc); auto copy = ob; std::vector<Object3D *> ptr; for (auto &o : ob) ptr.push_back(&o); g.shuffle(ptr); auto before = ptr;
    uint64_t h = n; for (auto &o : ob) h = hcomb(h, hd(o.bounding_box.min.x) ^ hd(o.bounding_box.max.y)); if (n) c.nontrivial(h);
    auto root = build_bvh(ptr, up); if (n == 0) { c.check(!root, "empty-not-null"); checkQuery(c, root.get(), ob, AABB(vec3(-1, -1, -1), vec3(1, 1, 1)), ""); return; }
    std::sort(before.begin(), before.end()); auto after = ptr; std::sort(after.begin(), after.end()); c.check(before == after, "object-list-changed"); bool same = true; for (int i = 0; i < n; ++i) same = same && eq(ob[i].bounding_box.min, copy[i].bounding_box.min) && eq(ob[i].bounding_box.max, copy[i].bounding_box.max) && ob[i].id == copy[i].id; c.check(same, "objects-changed");
    if (!c.check((bool) root, "null-root")) return; checkTree(c, root.get(), ob, "");
    for (int k = 0; k < 12; ++k) { vec3 a = pick(g, ob, sc), b = pick(g, ob, sc); AABB q(vec3(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), vec3(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z))); checkQuery(c, root.get(), ob, q, ""); checkQuery(c, root.get(), ob, g.pick(ob).bounding_box, ""); checkPoint(c, root.get(), ob, a); }
}
SUITE(pairs, 300, 8000) {
    Rng &g = c.rng; int n = g.i(1, 40), m = g.i(1, 40), kind = g.i(0, 7); double sc = g.p(.25) ? 1e-3 : 1; c.d << "kind=" << kind << " scale=" << sc << " "; auto o1 = objects(c, n, kind, sc); c.d << " | "; auto o2 = objects(c, m, g.p(.7) ? kind : g.i(0, 7), sc); std::vector<Object3D *> p1, p2; for (auto &o : o1) p1.push_back(&o); for (auto &o : o2) p2.push_back(&o);
    uint64_t h = n; for (auto &o : o1) h = hcomb(h, hd(o.bounding_box.min.x)); for (auto &o : o2) h = hcomb(h, hd(o.bounding_box.max.z)); c.nontrivial(h);
    auto r1 = build_bvh(p1, g.p(.5)), r2 = build_bvh(p2, g.p(.5)); checkPairs(c, r1.get(), r2.get(), o1, o2, ""); checkPairs(c, r1.get(), r1.get(), o1, o1, "self-");
}
SUITE(nodes, 120, 3000) { // copies answer like the original and survive it; setters place the child on the named side
    Rng &g = c.rng; int n = g.i(1, 30), kind = g.i(0, 7); auto ob = objects(c, n, kind, 1); std::vector<Object3D *> ptr; for (auto &o : ob) ptr.push_back(&o); c.nontrivial(hcomb(n, hd(ob[0].bounding_box.min.x))); auto root = build_bvh(ptr, g.p(.5)); BVHNode cp(*root), as; if (g.p(.5)) as.object = ob.data(); as = *root; auto q = g.pick(ob).bounding_box; auto back = std::make_unique<BVHNode>(*root); root.reset();
    checkTree(c, &cp, ob, "copy-"); checkQuery(c, &cp, ob, q, "copy-"); checkTree(c, &as, ob, "assigned-"); checkQuery(c, &as, ob, q, "assigned-"); checkPairs(c, &cp, &as, ob, ob, "copies-"); checkTree(c, back.get(), ob, "copy2-");
    auto l = std::make_unique<BVHNode>(ob[0].bounding_box, &ob[0]), r = std::make_unique<BVHNode>(q); auto *pl = l.get(), *pr = r.get(); BVHNode x; x.setLeft(l); x.setRight(r); c.check(x.left.get() == pl, "set-left"); c.check(x.right.get() == pr, "set-right");
}
HARNESS_MAIN
