// C36: point inversion from starts in the basin of convergence returns the known foot point; hostile calls return.
#include "common.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/point_inversion.h"
#include "cmmcore/ssx.h"
#include "ref.h"
#include "gen.h"
using namespace H;
using namespace cmmcore;

static R::P3 unitPerp(Rng &r, const R::P3 &t) { // random unit vector perpendicular to t
    while (true) { R::P3 v{(ld) r.gauss(), (ld) r.gauss(), (ld) r.gauss()}; ld tt = t.dot(t); if (tt > 0) v = v - t * (v.dot(t) / tt); ld n = v.norm(); if (n > .1L) return v * (1 / n); }
}
static void scaleBy(NURBSCurve &k, double f) { auto cp = k.control_points; for (auto &q : cp) { q.x *= f; q.y *= f; q.z *= f; } k = NURBSCurve(cp, k.get_degree(), k.knots, false); }

SUITE(curve, 3000, 60000) {
    G::CurveOpt o; o.open = .15; o.minDeg = 1; o.maxDeg = 5; o.maxMultMinus = 1; NURBSCurve k = G::curve(c.rng, o);
    double f = c.rng.p(.6) ? 1 : std::pow(10.0, c.rng.i(-4, 4)); if (f != 1) scaleBy(k, f);
    R::Curve r = G::toRef(k); ld sc = G::scaleOf(r), lo = r.lo(), hi = r.hi(), L = hi - lo; if (f < 1) sc = std::max(sc * 1, (ld) 1e-9);
    int place = c.rng.i(0, 5); ld t = place == 0 ? lo : place == 1 ? hi : lo + L * c.rng.u();
    R::P3 d1 = R::d1(r, t), d2 = R::d2(r, t), C = R::eval(r, t); ld sp = d1.norm(); if (sp < 1e-3L * sc / L) return;
    R::P3 T = d1 * (1 / sp), Kv = (d2 - T * d2.dot(T)) * (1 / (sp * sp)); ld kap = Kv.norm();
    int off = c.rng.i(0, 2); R::P3 P = C; ld dist = 0;
    if (off == 1) { dist = c.rng.uni(0, 1) * std::min(.4L / std::max(kap, 1e-6L / sc), sc); P = C + unitPerp(c.rng, d1) * dist; }
    else if (off == 2) { dist = 1e-6L * sc * c.rng.u(); P = C + unitPerp(c.rng, d1) * dist; }
    bool beyond = place <= 1 && c.rng.p(.5);
    if (beyond) { ld b = c.rng.uni(0, .05) * sc; P = P + T * (place == 0 ? -b : b); dist = (P - C).norm(); }
    auto fd = [&](ld x) { R::P3 a = R::d1(r, x), b = R::d2(r, x), q = R::eval(r, x); return b.dot(q - P) + a.dot(a); };   // exact derivative of the orthogonality function
    // window around the foot in which Newton with the exact derivative contracts by at least a factor two
    ld w = L * std::pow(10.0L, c.rng.uni(-4, -.6)), f0 = fd(t); if (!(f0 > 0.1L * sp * sp)) return;
    bool ok = false; for (int it = 0; it < 12 && !ok; ++it, w /= 2) { ok = true; if (k.get_degree() == 1) for (double x : k.knots) if (x > lo && x < hi && fabsl(x - t) <= 1.01L * w) ok = false; /* corner */ for (int s = -16; s <= 16 && ok; ++s) { ld x = std::min(hi, std::max(lo, t + w * s / 16)); ld v = fd(x); ok = v > .85L * f0 && v < 1.18L * f0 && R::d1(r, x).norm() < 2 * sp && R::d1(r, x).norm() > .5L * sp; } if (ok) break; }
    if (!ok) return;
    double u0 = (double) std::min(hi, std::max(lo, t + w * (ld) c.rng.uni(-1, 1) / 2)); if (c.rng.p(.2)) u0 = (double) t;
    if (c.rng.p(.1) && place == 0) u0 = (double) lo; if (c.rng.p(.1) && place == 1) u0 = (double) hi;
    if (u0 < (double) lo || u0 > (double) hi) return;
    double tol1 = (double) sc * std::pow(10.0, c.rng.uni(-10, -3)), tol2 = std::pow(10.0, c.rng.uni(-10, -3)); int mi = c.rng.p(.8) ? 100 : c.rng.i(30, 60);
    G::describe(c, k); vec3 p((double) P.x, (double) P.y, (double) P.z); c.d << " P=" << G::str(p) << " foot t=" << (double) t << " start " << u0 << " tol " << tol1 << "," << tol2 << " distance " << (double) dist; c.nontrivial(hcomb(G::fp(k), hd(u0)));
    double u = point_inversion_curve(k, p, u0, tol1, tol2, mi);
    if (!c.check(u >= (double) lo && u <= (double) hi, "domain", [&] { return S("parameter ", u, " outside ", (double) lo, "..", (double) hi); })) return;
    R::P3 Q = R::eval(r, u); ld e = (Q - C).norm(), allow = 3 * (tol1 + tol2 * dist * 2) + 1e-11L * sc;
    c.check(e <= allow, beyond ? "end-point" : off ? "foot" : "on-curve", [&] { return S("returned t=", u, ", ", (double) e, " away from the nearest point (allowed ", (double) allow, ")"); });
    c.check((Q - G::p3(p)).norm() <= (C - G::p3(p)).norm() + allow, "nearest", [&] { return std::string("the returned point is farther than the nearest one"); });
    if (u0 == (double) t) c.check((R::eval(r, u) - R::eval(r, u0)).norm() <= allow, "start-at-answer", [&] { return S("started at the answer ", u0, ", returned ", u); });
}

SUITE(surface, 2500, 50000) {
    G::SurfOpt o; o.minDeg = 1; o.open = .15; o.maxDeg = 4; o.maxMultMinus = 1; NURBSSurface s = G::surface(c.rng, o);
    double f = c.rng.p(.6) ? 1 : std::pow(10.0, c.rng.i(-3, 3)); if (f != 1) { for (auto &row : s._control_points) for (auto &q : row) { q.x *= f; q.y *= f; q.z *= f; } s = NURBSSurface(s._control_points, s._degree, s._knots_u, s._knots_v); }
    if ((s._degree[0] == 1 && s._size[0] > 2) || (s._degree[1] == 1 && s._size[1] > 2)) return;   // creases
    R::Surf r = G::toRef(s); ld sc = G::scaleOf(r);
    ld u0 = s._knots_u[s._degree[0]], u1 = s._knots_u[s._size[0]], v0 = s._knots_v[s._degree[1]], v1 = s._knots_v[s._size[1]], LU = u1 - u0, LV = v1 - v0;
    bool edge = c.rng.p(.25); ld u = u0 + LU * (edge && c.rng.p(.5) ? c.rng.i(0, 1) : c.rng.uni(.02, .98)), v = v0 + LV * (edge && c.rng.p(.5) ? c.rng.i(0, 1) : c.rng.uni(.02, .98));
    R::P3 a = R::dU(r, u, v), b = R::dV(r, u, v), C = R::eval(r, u, v), n = a.cross(b); ld na = a.norm(), nb = b.norm(), nn = n.norm();
    if (na < 1e-3L * sc / LU || nb < 1e-3L * sc / LV || nn < .1L * na * nb) return; n = n * (1 / nn);
    ld dist = 0; int off = c.rng.i(0, 2); if (off == 1) dist = c.rng.uni(0, .3) * sc; if (off == 2) dist = 1e-6L * sc * c.rng.u();
    double su = 0, sv = 0; bool good = false; R::P3 P; ld du = 0, dv = 0;
    ld mag = std::pow(10.0L, c.rng.uni(-4, -.7)); ld au = c.rng.uni(-1, 1), av = c.rng.uni(-1, 1); if (c.rng.p(.15)) au = av = 0;
    for (int it = 0; it < 14 && !good; ++it, mag /= 2, dist /= 2) {
        P = C + n * dist; su = (double) std::min(u1, std::max(u0, u + au * mag * LU)); sv = (double) std::min(v1, std::max(v0, v + av * mag * LV));
        // exact Gauss-Newton from here has to halve the distance to the foot in every step, in long double
        ld x = su, y = sv; good = true; ld e0 = (R::eval(r, x, y) - C).norm();
        for (int q = 0; q < 60 && good; ++q) {
            R::P3 A = R::dU(r, x, y), B = R::dV(r, x, y), D = R::eval(r, x, y) - P; ld j11 = A.dot(A), j12 = A.dot(B), j22 = B.dot(B), det = j11 * j22 - j12 * j12; if (!(det > .005L * j11 * j22)) { good = false; break; }
            ld fx = A.dot(D), gx = B.dot(D); x = std::min(u1, std::max(u0, x - (fx * j22 - gx * j12) / det)); y = std::min(v1, std::max(v0, y - (gx * j11 - fx * j12) / det));
            ld e1 = (R::eval(r, x, y) - C).norm(); if (e1 < 1e-13L * sc) break; if (e1 > .4L * e0) { good = false; break; } e0 = e1; if (q == 59) good = false; }
        // and orthogonality has to measure that distance (no fold of the normal direction nearby)
        if (good) break;
    }
    if (!good) return; du = LU; dv = LV; (void) du; (void) dv;
    double tol1 = (double) sc * std::pow(10.0, c.rng.uni(-8.5, -3)), tol2 = std::pow(10.0, c.rng.uni(-8, -3));
    vec3 p((double) P.x, (double) P.y, (double) P.z); G::describe(c, s); c.d << " P=" << G::str(p) << " foot " << (double) u << "," << (double) v << " start " << su << "," << sv << " tol " << tol1 << "," << tol2 << " distance " << (double) dist; c.nontrivial(hcomb(hcomb(G::fp(s), hd(su)), hd(sv)));
    auto q = point_inversion_surface(s, p, su, sv, tol1, tol2, 100);
    if (!c.check(q[0] >= (double) u0 && q[0] <= (double) u1 && q[1] >= (double) v0 && q[1] <= (double) v1, "domain", [&] { return S("parameters ", q[0], ",", q[1], " outside the surface"); })) return;
    R::P3 Q = R::eval(r, q[0], q[1]); ld e = (Q - C).norm(), allow = 10 * (tol1 + tol2 * dist * 4) + 1e-9L * sc + 1e-8L * dist;
    // two tangents at a narrow angle: small cosines against both allow more
    ld sinA = nn / (na * nb); allow /= sinA * sinA;
    c.check(e <= allow, off ? "foot" : "on-surface", [&] { return S("returned ", q[0], ",", q[1], ", ", (double) e, " away from the nearest point (allowed ", (double) allow, ")"); });
    if (au == 0 && av == 0) c.check(e <= allow, "start-at-answer", [&] { return std::string("left the answer it started at"); });
}

// any start, any point, degenerate geometry: the call returns parameters of the domain or reports an error
SUITE(hostile, 2000, 30000) {
    double scale = std::pow(10.0, c.rng.i(-8, 8)); auto val = [&] { return c.rng.p(.1) ? 0.0 : c.rng.uni(-10, 10) * scale; };
    vec3 P(val(), val(), val()); int mi = c.rng.p(.2) ? c.rng.i(0, 2) : c.rng.i(3, 200); double t1 = c.rng.p(.1) ? 0 : std::pow(10.0, c.rng.i(-14, 2)), t2 = c.rng.p(.1) ? 0 : std::pow(10.0, c.rng.i(-14, 0));
    if (c.rng.p(.5)) {
        NURBSCurve k = G::curve(c.rng); auto cp = k.control_points; int mode = c.rng.i(0, 3);
        if (mode == 1) for (auto &q : cp) { vec4 z = cp[0]; q = z; } if (mode == 2) for (size_t i = 1; i < cp.size(); ++i) if (c.rng.p(.5)) cp[i] = cp[i - 1];
        k = NURBSCurve(cp, k.get_degree(), k.knots, false); auto iv = k.interval(); double u0 = c.rng.p(.1) ? iv[0] : c.rng.p(.1) ? iv[1] : c.rng.uni(iv[0], iv[1]);
        if (mode == 3) { vec3 q; k.evaluate(u0, q); P = q; }
        G::describe(c, k); c.d << " P=" << G::str(P) << " start " << u0 << " tol " << t1 << "," << t2 << " iterations " << mi; c.nontrivial(hcomb(G::fp(k), hd(u0)));
        double u = point_inversion_curve(k, P, u0, t1, t2, mi); c.check(u >= iv[0] && u <= iv[1], "hostile-domain", [&] { return S("parameter ", u, " outside ", iv[0], "..", iv[1]); });
        if (mode == 3) { vec3 q; k.evaluate(u, q); ld sc = G::scaleOf(G::toRef(k)); c.check(G::gap(q, P) <= 2 * t1 + 1e-9L * sc, "start-at-answer", [&] { return S("left the answer ", u0, " for ", u); }); }
    } else {
        NURBSSurface s = G::surface(c.rng); int mode = c.rng.i(0, 3); auto cp = s._control_points;
        if (mode == 1) for (auto &q : cp[0]) q = cp[0][0]; if (mode == 2) for (auto &row : cp) for (auto &q : row) q = cp[0][0];
        s = NURBSSurface(cp, s._degree, s._knots_u, s._knots_v); auto iv = s.interval(); double u0 = c.rng.uni(iv[0][0], iv[0][1]), v0 = c.rng.uni(iv[1][0], iv[1][1]);
        if (mode == 3) { vec3 q; s.evaluate(u0, v0, q); P = q; }
        G::describe(c, s); c.d << " P=" << G::str(P) << " start " << u0 << "," << v0 << " iterations " << mi; c.nontrivial(hcomb(G::fp(s), hd(u0)));
        try { auto q = point_inversion_surface(s, P, u0, v0, t1, t2, mi); c.check(q[0] >= iv[0][0] && q[0] <= iv[0][1] && q[1] >= iv[1][0] && q[1] <= iv[1][1], "hostile-domain", [&] { return S("parameters ", q[0], ",", q[1], " outside the surface"); }); }
        catch (const std::runtime_error &) { ++state()->events; }   // a singular system is reported
    }
}
SUITE(tangent_step, 4000, 100000) { // the first-order parameter step solves the tangent equation whenever the tangents are independent
    Rng &g = c.rng; auto v3 = [&] { return R::P3{(ld) g.gauss(), (ld) g.gauss(), (ld) g.gauss()}; }; R::P3 a = v3(), b = v3(); ld sa = powl(10, g.uni(-3, 3)), sb = powl(10, g.uni(-3, 3)); if (g.p(.3)) { int k = g.i(0, 2); (k == 0 ? a.x : k == 1 ? a.y : a.z) = 0; (k == 0 ? b.x : k == 1 ? b.y : b.z) = 0; } auto to = [](const R::P3 &p) { return vec3((double) p.x, (double) p.y, (double) p.z); }; vec3 du = to(a * sa), dv = to(b * sb); R::P3 A = G::p3(du), B = G::p3(dv); ld par = A.cross(B).norm() / (A.norm() * B.norm()); if (!(par > .05L)) return;
    ld x = g.uni(-1, 1), y = g.uni(-1, 1) * sa / sb; vec3 d = to(A * x + B * y); c.d << G::str(du) << G::str(dv) << G::str(d); c.nontrivial(hcomb(hd(du.x), hd(dv.y))); vec2 r(7, 7); bool ok = ssx_helpers::improve_uv(du, dv, d, r); if (!c.check(ok, "step-refused", [&] { return S("independent tangents, sine of their angle ", (double) par); })) return;
    R::P3 E = A * r.x + B * r.y - G::p3(d); c.check(E.norm() <= 1e-11L * (A.norm() * fabsl(x) + B.norm() * fabsl(y)) / par, "step", [&] { return S("step (", r.x, ",", r.y, ") expected (", (double) x, ",", (double) y, ")"); });
    vec2 z; vec3 k = du * g.uni(-2, 2); bool dep = ssx_helpers::improve_uv(du, du * 2.0, k, z); c.check(!dep, "dependent-tangents-accepted");
}
SUITE(robust_step, 600, 20000) { // one marching step: parameters of a nearby point of the surface
    Rng &g = c.rng; G::SurfOpt o; o.minDeg = 2; o.maxDeg = 3; o.maxExtra = 0; NURBSSurface s = G::surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size(); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) P[i][j] = vec4(2. * i + g.uni(-.2, .2), 2. * j + g.uni(-.2, .2), g.uni(-.5, .5), 1); s = NURBSSurface(P, s._degree, s._knots_u, s._knots_v); auto r = G::toRef(s); auto &iv = s._interval; double LU = iv[0][1] - iv[0][0], LV = iv[1][1] - iv[1][0], u = iv[0][0] + LU * g.uni(.1, .9), v = iv[1][0] + LV * g.uni(.1, .9), far = g.p(.5) ? .4 : .05, un = std::min(iv[0][1], std::max(iv[0][0], u + LU * g.uni(-far, far))), vn = std::min(iv[1][1], std::max(iv[1][0], v + LV * g.uni(-far, far))); auto to = [](const R::P3 &p) { return vec3((double) p.x, (double) p.y, (double) p.z); };
    vec3 here = to(R::eval(r, u, v)), there = to(R::eval(r, un, vn)), du = to(R::dU(r, u, v)), dv = to(R::dV(r, u, v)); G::describe(c, s); c.nontrivial(hcomb(G::fp(s), hd(u))); vec2 q(0, 0); improve_uv_robust(s, vec2(u, v), du, dv, here, there, q, 1e-9, 100); if (!c.check(q.x >= iv[0][0] && q.x <= iv[0][1] && q.y >= iv[1][0] && q.y <= iv[1][1], "outside")) return; auto p = R::eval(r, q.x, q.y); c.check((p - G::p3(there)).norm() <= 1e-8L, "marched-off", [&] { return S("(", q.x, ",", q.y, ") expected (", un, ",", vn, ") off by ", (double) (p - G::p3(there)).norm()); });
}
HARNESS_MAIN
