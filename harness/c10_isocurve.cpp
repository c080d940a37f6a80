// Isocurves and boundary curves.
#include "gen.h"
#include "cmmcore/boundary_intersection.h"
using namespace G;
static ld relW(const NURBSSurface &k) { ld a = 1e9L, b = 0; for (auto &row : k._control_points) for (auto &v : row) { a = std::min<ld>(a, v.w); b = std::max<ld>(b, v.w); } return b / a; }
static void verify(Case &c, const R::Surf &r, const NURBSSurface &s, const NURBSCurve &k, int fixedDir, double at, ld tol, const char *api) {
    int fd = 1 - fixedDir; auto &K = fd ? s._knots_v : s._knots_u;
    if (!c.check(k._degree == s._degree[fd] && k.knots == K && k.control_points.size() == s._size[fd] && k.interval() == valid(s)[fd] && !k._periodic, S(api, "-shape"), [&] { return S("fixed dir ", fixedDir, " knots ", k.knots.size(), " cps ", k.control_points.size()); })) return;
    auto dom = valid(s)[fd]; for (int i = 0; i < 8; ++i) { double t = i == 0 ? dom[0] : i == 1 ? dom[1] : c.rng.p(.2) ? std::min(dom[1], std::max(dom[0], c.rng.pick(K))) : c.rng.uni(dom[0], dom[1]); vec3 a, b; k.evaluate(t, a); R::P3 e = fixedDir == 0 ? R::eval(r, at, t) : R::eval(r, t, at); fixedDir == 0 ? s.evaluate(at, t, b) : s.evaluate(t, at, b);
        c.check(finite(a) && gap(a, e) <= tol && gap(a, b) <= tol, S(api, "-point"), [&] { return S("fixed ", fixedDir ? "v" : "u", "=", at, " free=", t, " gives ", str(a), " surface ", str(e)); }); }
}
SUITE(iso, 2500, 60000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 6; o.wild = .2; o.open = .15; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); ld tol = 1e-11L * scaleOf(r) * relW(s) * 10;
    for (int dir = 0; dir < 2; ++dir) { auto d = dir ? SurfaceParameter::V : SurfaceParameter::U; auto &K = dir ? s._knots_v : s._knots_u; auto dom = valid(s)[dir]; double t = g.p(.2) ? dom[0] : g.p(.2) ? dom[1] : g.p(.2) ? std::min(dom[1], std::max(dom[0], g.pick(K))) : g.uni(dom[0], dom[1]); c.d << " iso dir " << dir << " at " << t;
        verify(c, r, s, s.extract_isocurve(t, d), dir, t, tol, "member"); verify(c, r, s, cmmcore::extract_isocurve(s, t, d), dir, t, tol, "free"); }
}
SUITE(boundaries, 1200, 20000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 5; o.open = .15; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); ld tol = 1e-11L * scaleOf(r) * relW(s) * 10; std::array<NURBSCurve, 4> A, B; s.extract_surface_boundaries(A); cmmcore::extract_surface_boundaries(s, B);
    for (int i = 0; i < 4; ++i) { int dir = i / 2; double at = s._interval[dir][i % 2]; verify(c, r, s, A[i], dir, at, tol, "boundary-member"); verify(c, r, s, B[i], dir, at, tol, "boundary-free"); }
}
SUITE(outside_rejected, 600, 6000) {
    Rng &g = c.rng; auto s = surface(g); describe(c, s); c.nontrivial(fp(s));
    for (int dir = 0; dir < 2; ++dir) for (double t : {std::nextafter(s._interval[dir][0], -1e300), s._interval[dir][0] - g.uni(1e-6, 5), std::nextafter(s._interval[dir][1], 1e300), s._interval[dir][1] + g.uni(1e-6, 5)}) { auto d = dir ? SurfaceParameter::V : SurfaceParameter::U; bool a = false, b = false;
        try { s.extract_isocurve(t, d); } catch (const std::invalid_argument &) { a = true; } try { cmmcore::extract_isocurve(s, t, d); } catch (const std::invalid_argument &) { b = true; } c.check(a && b, "accepted", [&] { return S("dir ", dir, " at ", t); }); }
}
HARNESS_MAIN
