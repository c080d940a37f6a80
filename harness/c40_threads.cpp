// C40: several threads run mixed operations on private objects and on shared const objects, with injected yields, under
// the race detector; every result must equal the one a single thread obtained beforehand from the same seed.
#include "work.h"
#include <atomic>
#include <thread>
#include <sched.h>
using namespace W;
struct Shared { // one pool of const objects read by all threads
    std::vector<NURBSCurve> curves; std::vector<NURBSSurface> surfs; std::vector<NURBSSurface> patches; KDTree3D tree; std::vector<Object3D> ob; std::unique_ptr<BVHNode> bvh; std::vector<std::vector<vec3>> sets; std::vector<polygon2> polys; std::vector<Monomial2D> monos;
    explicit Shared(Rng &g) {
        for (int i = 0; i < 3; ++i) { curves.push_back(g.p(.3) ? wiggle(g, false, 6, 1) : curve(g)); SurfOpt o; o.maxDeg = 3; o.maxExtra = 2; surfs.push_back(surface(g, o)); }
        patches.push_back(sheet(g, 6, .5, false, 2, 0)); patches.push_back(sheet(g, 5, .5, true, 2, 0)); patches.push_back(sheet(g, 4, .3, true, 1, 1));
        std::vector<vec3> p; for (int i = 0; i < 30; ++i) p.push_back(pt(g)); tree.build(p); ob.reserve(25); for (int i = 0; i < 25; ++i) { vec3 q = pt(g, 8); ob.emplace_back(AABB(q, q + vec3(g.u(), g.u(), g.u()) * 3), i); } std::vector<Object3D *> ps; for (auto &o : ob) ps.push_back(&o); bvh = build_bvh(ps, g.p(.5));
        for (int i = 0; i < 3; ++i) { sets.push_back(cloud(g, g.i(4, 12))); polys.push_back(poly(g, g.i(3, 8), g.uni(.5, 3), vec2(g.uni(-1, 1), g.uni(-1, 1)))); monos.emplace_back(bezier(g, 3)); }
    }
};
static const char *const SH[] = {"curve", "curve-length", "surface", "ccx", "csx", "boundary", "ssx", "tree", "bvh", "sets", "polygons", "monomial", "serialize", "invert"};
static const int NSH = 14;
static void sharedOp(const Shared &s, int k, uint64_t seed, Dig &D) {
    Rng g(seed); const NURBSCurve &c = g.pick(s.curves); const NURBSSurface &f = g.pick(s.surfs); auto &A = s.sets[g.i(0, 2)], &B = s.sets[g.i(0, 2)];
    try { switch (k) {
        case 0: readCurve(c, g, D); break;
        case 1: D.d(s.curves[0].length(s.curves[0].interval()[0], s.curves[0].interval()[0] + .3 * (s.curves[0].interval()[1] - s.curves[0].interval()[0]), 1e-3)); break;
        case 2: readSurface(f, g, D); break;
        case 3: pairCCX(wiggle(g, false, 3, 1), wiggle(g, false, 3, 1), .02, D); break;
        case 4: { NURBSCurve st = s.patches[1].extract_isocurve(s.patches[1]._interval[0][0], SurfaceParameter::U); pairCSX(st, s.patches[0], .02, D); break; }
        case 5: pairBoundary(s.patches[0], s.patches[1 + g.i(0, 1)], .02, D); break;
        case 6: pairSSX(s.patches[0], s.patches[1], .02, D); break;
        case 7: readKD(s.tree, g, D); break;
        case 8: readBVH(s.bvh.get(), g, D); { std::vector<std::pair<const BVHNode *, const BVHNode *>> pr; intersect_bvh(s.bvh.get(), s.bvh.get(), pr); D.u(pr.size()); } break;
        case 9: { D.u(SAT3D(A, B)); std::vector<vec3> sx; vec3 q; D.u(GJK(A, B, sx, q, 1e-9)); std::vector<vec3> h; D.u((uint64_t) convex_hull(A, h)); D.d(h); break; }
        case 10: { auto &p = s.polys[g.i(0, 2)], &q = s.polys[g.i(0, 2)]; D.u(SAT2D(p, q)); D.u((uint64_t) polygonRelationship2D(p, q)); D.u(pointInPolygon2D(p, q[0])); break; }
        case 11: { auto &m = s.monos[g.i(0, 2)]; Monomial2D n; m.computeNormal(n); NURBSSurface b; n.to_bezier(b); D.d(b); break; }
        case 12: { auto cs = s.curves; auto b = serializeNURBSCurves(cs); auto r = deserializeNURBSCurves(b); for (auto &x : r) D.d(x); break; }
        default: { vec3 p; auto &q = s.curves[0]; double t = q.interval()[0] + .4 * (q.interval()[1] - q.interval()[0]); q.evaluate(t, p); D.d(point_inversion_curve(q, p, t, 1e-6, 1e-6, 30)); }
    } } catch (const std::exception &e) { D.s(e.what()); }
}
struct Task { int kind, which; uint64_t seed, want; };
static std::string name(const Task &t) { return t.kind ? std::string("shared-") + SH[t.which] : std::string("own-") + ops()[t.which].name; }
static void exec(const Shared &s, const Task &t, Dig &D) { if (t.kind) sharedOp(s, t.which, t.seed, D); else run(ops()[t.which], t.seed, D); }
static void race(Case &c, int nt, std::vector<std::vector<Task>> plan, const Shared &s) {
    for (auto &p : plan) for (auto &t : p) { Dig D; exec(s, t, D); t.want = D.h; }
    std::atomic<int> inside{0}; std::atomic<uint64_t> overlaps{0}; std::vector<std::vector<uint64_t>> got(nt); std::vector<std::thread> th;
    size_t steps = plan[0].size(); std::vector<std::atomic<int>> gate(steps + 1); for (auto &x : gate) x = 0; bool lock = plan[0][0].seed & 1; // in lock step, or free running after a common start
    for (int i = 0; i < nt; ++i) th.emplace_back([&, i] { Rng y(plan[i][0].seed ^ 77); for (size_t k = 0; k < steps; ++k) { auto &t = plan[i][k]; if (y.p(.2)) { timespec ns{0, (long) (y.next() % 40000)}; nanosleep(&ns, nullptr); }
        if (lock || k == 0) { gate[k].fetch_add(1, std::memory_order_relaxed); while (gate[k].load(std::memory_order_relaxed) < nt) sched_yield(); } // relaxed: no happens-before edge that could hide a race
        Dig D; if (inside.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed); exec(s, t, D); if (inside.fetch_sub(1, std::memory_order_relaxed) > 1) overlaps.fetch_add(1, std::memory_order_relaxed); got[i].push_back(D.h); } });
    for (auto &t : th) t.join(); std::map<std::string, int> seen;
    for (int i = 0; i < nt; ++i) for (size_t k = 0; k < plan[i].size(); ++k) { auto nm = name(plan[i][k]); c.nontrivial(plan[i][k].seed); c.check(got[i][k] == plan[i][k].want, "result/" + nm, [&] { return S("thread ", i, " step ", k, " ", nm, " gave a result that differs from the single-threaded one"); }); }
    H::stat("steps", got.size() * plan[0].size()); H::stat("step-ends-inside-another-threads-step", overlaps.load()); H::stat("races-run"); H::stat("races-with-overlap", overlaps.load() > 0);
}
struct Mute { std::streambuf *e; struct N : std::streambuf { int overflow(int ch) override { return ch; } } n; Mute() { e = std::cerr.rdbuf(&n); } ~Mute() { std::cerr.rdbuf(e); } };
SUITE(same_op, 480, 24000) { // every area once per 32 cases: all threads run the same operation at once
    static Mute mute; Rng &g = c.rng; Shared s(g); int which = (int) (c.index % (ops().size() + NSH)), nt = g.i(2, 4); std::vector<std::vector<Task>> plan(nt); bool same = g.p(.4); uint64_t sd = g.next(); bool own = which < (int) ops().size(); for (auto &p : plan) for (int k = 0; k < 4; ++k) p.push_back({own ? 0 : 1, own ? which : which - (int) ops().size(), same ? sd + k : g.next(), 0}); c.d << name(plan[0][0]) << " threads " << nt; race(c, nt, plan, s); }
SUITE(mixed, 320, 20000) { static Mute mute; Rng &g = c.rng; Shared s(g); int nt = g.i(2, 6); std::vector<std::vector<Task>> plan(nt); for (auto &p : plan) for (int k = 0; k < 8; ++k) { bool own = g.p(.5); p.push_back({own ? 0 : 1, own ? g.i(0, (int) ops().size() - 1) : g.i(0, NSH - 1), g.next(), 0}); c.d << name(p.back()) << " "; } race(c, nt, plan, s); }
HARNESS_MAIN
