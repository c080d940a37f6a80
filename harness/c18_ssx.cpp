// Surface-surface intersection start points: soundness, emptiness for separated pairs, presence for crossing pairs.
#include "gen.h"
#include "cmmcore/ssx.h"
using namespace G;
#ifdef STATISTICS
#define RESET cmmcore::counter = 0
#define EXAMINED H::stat("patch-pairs-examined", cmmcore::counter)
#else
#define RESET (void) 0
#define EXAMINED (void) 0
#endif
struct M3 { double m[3][3]; };
static M3 rotation(Rng &g) { M3 r; double a = g.uni(0, 6.28), b = g.uni(0, 6.28), ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b); double A[3][3] = {{ca, -sa, 0}, {sa, ca, 0}, {0, 0, 1}}, B[3][3] = {{1, 0, 0}, {0, cb, -sb}, {0, sb, cb}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += A[i][k] * B[k][j]; } return r; }
static NURBSSurface apply(const M3 &M, const NURBSSurface &s, vec3 d = vec3(0, 0, 0)) { auto P = s._control_points; for (auto &r : P) for (auto &v : r) { double x = v.x + d.x * v.w, y = v.y + d.y * v.w, z = v.z + d.z * v.w; v = vec4(M.m[0][0] * x + M.m[0][1] * y + M.m[0][2] * z, M.m[1][0] * x + M.m[1][1] * y + M.m[1][2] * z, M.m[2][0] * x + M.m[2][1] * y + M.m[2][2] * z, v.w); } return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }
static const M3 ID = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
static NURBSSurface sheet(Rng &g, double Lx, double Ly, double amp, bool rational, int maxDeg = 3, int maxExtra = 1) {
    SurfOpt o; o.minDeg = 2; o.maxDeg = maxDeg; o.maxExtra = maxExtra; o.knotKind = g.i(0, 1); auto s = surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size(); double cx = g.uni(-1, 1) * amp, cy = g.uni(-1, 1) * amp;
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double w = rational ? g.uni(.7, 1.4) : 1, x = 2. * i / (n - 1) - 1, y = 2. * j / (m - 1) - 1; P[i][j] = vec4(Lx / 2 * x * w, Ly / 2 * y * w, (cx * x * x + cy * y * y + .15 * amp * g.uni(-1, 1)) * w, w); }
    return NURBSSurface(P, s._degree, s._knots_u, s._knots_v);
}
static M3 standUp(Rng &g) { double a = g.uni(-3.1, 3.1), ca = cos(a), sa = sin(a), t = g.uni(-.35, .35), ct = cos(t), st = sin(t); M3 r = {{{ca, -sa * st, -sa * ct}, {sa, ca * st, ca * ct}, {0, ct, -st}}}; return r; }
static bool inside(const NURBSSurface &s, double u, double v) { return u >= s._interval[0][0] && u <= s._interval[0][1] && v >= s._interval[1][0] && v <= s._interval[1][1]; }
static void sound(Case &c, const NURBSSurface &a, const NURBSSurface &b, double tol, const cmmcore::Intersection &r) {
    auto ra = toRef(a), rb = toRef(b); ld sc = 1 + scaleOf(ra) + scaleOf(rb);
    for (auto &x : r.points) { if (!c.check(inside(a, x.uv1.x, x.uv1.y) && inside(b, x.uv2.x, x.uv2.y), "point-outside-domain", [&] { return S(x.uv1.x, ",", x.uv1.y, " ", x.uv2.x, ",", x.uv2.y); })) continue; auto p = R::eval(ra, x.uv1.x, x.uv1.y), q = R::eval(rb, x.uv2.x, x.uv2.y); ld lim = 2 * sqrtl(3) * tol + 1e-8L * sc; c.check((p - q).norm() <= lim && gap(x.xyz, p) <= lim && gap(x.xyz, q) <= lim, "point-off", [&] { return S(str(p), " ", str(q), " xyz ", str(x.xyz), " tol ", tol); }); }
    for (auto &x : r.patches) for (auto *e : {&x.start, &x.end}) { if (!c.check(inside(a, e->surface1_params[0], e->surface1_params[1]) && inside(b, e->surface2_params[0], e->surface2_params[1]), "end-outside-domain")) continue; auto p = R::eval(ra, e->surface1_params[0], e->surface1_params[1]), q = R::eval(rb, e->surface2_params[0], e->surface2_params[1]); c.check((p - q).norm() <= 1.01L * tol + 1e-8L * sc && gap(e->point, p) <= 1.01L * tol + 1e-8L * sc, "end-off", [&] { return S(str(p), " ", str(q), " point ", str(e->point), " tol ", tol); }); }
}
SUITE(crossing, 500, 8000) { // b is placed so that it passes transversally through a's interior
    Rng &g = c.rng; bool rat = g.p(.2), flat = g.p(.3); double sz = g.p(.25) ? .1 : 1; auto a = flat ? sheet(g, sz * g.uni(5, 10), sz * g.uni(5, 10), 0, rat) : sheet(g, sz * g.uni(5, 10), sz * g.uni(5, 10), sz * g.uni(.3, 1.2), rat), b = apply(standUp(g), sheet(g, sz * g.uni(5, 10), sz * g.uni(5, 10), sz * g.uni(.3, 1.2), rat));
    auto ra = toRef(a), rb = toRef(b); double ua = a._interval[0][0] + (a._interval[0][1] - a._interval[0][0]) * g.uni(.3, .7), va = a._interval[1][0] + (a._interval[1][1] - a._interval[1][0]) * g.uni(.3, .7), ub = b._interval[0][0] + (b._interval[0][1] - b._interval[0][0]) * g.uni(.3, .7), vb = b._interval[1][0] + (b._interval[1][1] - b._interval[1][0]) * g.uni(.3, .7); auto d = R::eval(ra, ua, va) - R::eval(rb, ub, vb); b = apply(ID, b, vec3((double) d.x, (double) d.y, (double) d.z)); if (g.p(flat ? .2 : .5)) { auto M = rotation(g); a = apply(M, a); b = apply(M, b); } if (g.p(.3)) std::swap(a, b), std::swap(ua, ub), std::swap(va, vb);
    double tol = 1e-3 * (g.p(.5) ? 1 : 10) * sz; c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); ra = toRef(a); rb = toRef(b); auto n1 = R::dU(ra, ua, va).cross(R::dV(ra, ua, va)), n2 = R::dU(rb, ub, vb).cross(R::dV(rb, ub, vb)); ld cs = fabsl(n1.dot(n2)) / (n1.norm() * n2.norm());
    uint64_t ha = fp(a), hb = fp(b); cmmcore::Intersection r; cmmcore::findStartIntersectionPoints(a, b, tol, r); c.check(fp(a) == ha && fp(b) == hb, "inputs-changed"); sound(c, a, b, tol, r); c.d << " points " << r.points.size() << " patches " << r.patches.size();
    if (cs < .8L) c.check(r.points.size() + r.patches.size() > 0, "missed", [&] { return S("surfaces cross at (", ua, ",", va, ") (", ub, ",", vb, ") tol ", tol); });
}
SUITE(disjoint, 400, 8000) {
    Rng &g = c.rng; double amp = g.uni(.1, 1); auto a = sheet(g, 6, 6, amp, g.p(.3)), b = sheet(g, 6, 6, amp, g.p(.3)); double top = -1e9, bot = 1e9; for (auto &p : a.control_points_flat3d()) top = std::max(top, p.z); for (auto &p : b.control_points_flat3d()) bot = std::min(bot, p.z); double tol = pow(10, -g.uni(2, 4)); b = apply(ID, b, vec3(g.uni(-4, 4), g.uni(-4, 4), top - bot + tol * 3 + (g.p(.5) ? g.uni(0, .05) : g.uni(.05, 2)))); if (g.p(.7)) { auto M = rotation(g); a = apply(M, a); b = apply(M, b); } c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    cmmcore::Intersection r; cmmcore::findStartIntersectionPoints(a, b, tol, r); c.check(r.points.empty() && r.patches.empty(), "phantom", [&] { return S(r.points.size(), " points ", r.patches.size(), " patches"); });
}
// Graphs over the plane whose normals overlap, so that the search has to subdivide: domes and saddles cut by a sloping
// plane, by a bowl, or by each other; closed curves, several branches, contacts at a single point.
static NURBSSurface graphOn(Rng &g, double x0, double x1, double y0, double y1, const double (&q)[6], bool rat, int deg, int extra) {
    SurfOpt o; o.minDeg = deg; o.maxDeg = deg; o.maxExtra = extra; o.knotKind = 0; auto s = surface(g, o); auto P = s._control_points; int n = (int) P.size(), m = (int) P[0].size();
    auto grev = [](const std::vector<double> &U, int p, int i) { double t = 0; for (int k = 1; k <= p; ++k) t += U[i + k]; return t / p; }; auto sq = [&](const std::vector<double> &U, int p, int i) { double t = 0; int c = 0; for (int k = 1; k <= p; ++k) for (int l = k + 1; l <= p; ++l) { t += U[i + k] * U[i + l]; ++c; } return c ? t / c : 0; }; // blossoms of x and x^2
    double u0 = s._knots_u.front(), u1 = s._knots_u.back(), v0 = s._knots_v.front(), v1 = s._knots_v.back(), wu = (x1 - x0) / (u1 - u0), wv = (y1 - y0) / (v1 - v0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { int p = s._degree[0], r = s._degree[1]; double a = grev(s._knots_u, p, i), b = grev(s._knots_v, r, j), aa = sq(s._knots_u, p, i), bb = sq(s._knots_v, r, j); double x = (a - u0) * wu + x0, y = (b - v0) * wv + y0, xx = wu * wu * (aa - 2 * a * u0 + u0 * u0) + 2 * x0 * wu * (a - u0) + x0 * x0, yy = wv * wv * (bb - 2 * b * v0 + v0 * v0) + 2 * y0 * wv * (b - v0) + y0 * y0; double w = rat ? g.uni(.8, 1.25) : 1; P[i][j] = vec4(x * w, y * w, (q[0] + q[1] * x + q[2] * y + q[3] * xx + q[4] * x * y + q[5] * yy) * w, w); }
    return NURBSSurface(P, s._degree, s._knots_u, s._knots_v); }
static NURBSSurface graph(Rng &g, double L, const double (&q)[6], bool rat, int deg, int extra) { return graphOn(g, -L / 2, L / 2, -L / 2, L / 2, q, rat, deg, extra); }
static NURBSSurface transposed(const NURBSSurface &s) { auto &P = s._control_points; std::vector<std::vector<vec4>> Q(P[0].size(), std::vector<vec4>(P.size())); for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P[0].size(); ++j) Q[j][i] = P[i][j]; return NURBSSurface(Q, {s._degree[1], s._degree[0]}, s._knots_v, s._knots_u); }
SUITE(overlapping_normals, 160, 4000) {
    Rng &g = c.rng; double L = 4, k = g.uni(.15, .6); int kind = g.i(0, 3); bool saddle = kind == 3; double tx = g.uni(-.15, .15), ty = g.uni(-.15, .15), drop = g.uni(.15, 1.2) * k;
    // difference of the two graphs: drop - k (x^2 + e y^2) + slope, zero on an ellipse (or a hyperbola) well inside the square
    double e = saddle ? -g.uni(.6, 1.4) : g.uni(.6, 1.4), f = kind == 0 ? 0 : g.uni(.2, .8); double qa[6] = {drop, 0, 0, -k * (1 - f), 0, -k * e * (1 - f)}, qb[6] = {0, tx, ty, k * f, 0, k * e * f}; int db = kind == 0 ? g.i(1, 2) : 2; auto a = graph(g, L, qa, false, 2, g.i(0, 1)), b = graph(g, L * g.uni(.9, 1.1), qb, false, db, g.i(0, 1)); auto M = g.p(.6) ? rotation(g) : ID; a = apply(M, a); b = apply(M, b); if (g.p(.4)) std::swap(a, b);
    double tol = 1e-2 * pow(10, -g.u()); c.d << "kind " << kind << " tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); cmmcore::Intersection r; RESET; cmmcore::findStartIntersectionPoints(a, b, tol, r); EXAMINED; H::stat("points", r.points.size()); H::stat("patches", r.patches.size()); sound(c, a, b, tol, r);
    c.check(r.points.size() + r.patches.size() > 0, "missed", [&] { return S("kind ", kind, " drop ", drop, " tol ", tol); });
}
// Zero sets of random quadratics over a square, labelled by flood fill on a fine grid: every branch must be represented.
static void branches(Case &c, bool loop) {
    Rng &g = c.rng; double L = 4, h = L / 2, q[6], f[6] = {0, g.uni(-.2, .2), g.uni(-.2, .2), g.uni(-.15, .15), 0, g.uni(-.15, .15)}; int kind = loop ? 3 : g.i(0, 2); if (g.p(.3)) f[3] = f[5] = 0; for (double &x : q) x = g.uni(-.3, .3); if (kind == 1) { q[1] = g.uni(-.05, .05); q[2] = g.uni(.2, .5) * (g.p(.5) ? 1 : -1); q[3] = g.uni(.15, .5); q[4] = 0; q[5] = g.uni(-.05, .05); } if (kind == 2) { q[3] = g.uni(.2, .5); q[5] = -g.uni(.2, .5); } if (kind == 3) { double k = g.uni(.2, .6) * (g.p(.5) ? 1 : -1), e = g.uni(.7, 1.4), r = g.uni(.3, .9), cx = g.uni(-1, 1), cy = g.uni(-1, 1); q[0] = k * (cx * cx + e * cy * cy - r * r); q[1] = -2 * k * cx; q[2] = -2 * k * e * cy; q[3] = k; q[4] = 0; q[5] = k * e; f[3] = g.uni(-.3, .3); f[5] = g.uni(-.3, .3); f[1] = g.uni(-.4, .4); f[2] = g.uni(-.4, .4); } // a small loop anywhere
    double tol = 1e-3 * g.uni(1, 8);
    const int N = 240; auto at = [&](double x, double y) { return q[0] + q[1] * x + q[2] * y + q[3] * x * x + q[4] * x * y + q[5] * y * y; }; std::vector<int> lab(N * N, -1); auto X = [&](int i) { return -h + L * i / N; }; int nb = 0; std::vector<std::vector<std::pair<int, int>>> br;
    auto hit = [&](int i, int j) { double a = at(X(i), X(j)), b = at(X(i + 1), X(j)), d = at(X(i), X(j + 1)), e = at(X(i + 1), X(j + 1)); return !(a > 0 && b > 0 && d > 0 && e > 0) && !(a < 0 && b < 0 && d < 0 && e < 0); };
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (lab[i * N + j] < 0 && hit(i, j)) { br.emplace_back(); std::vector<std::pair<int, int>> st{{i, j}}; lab[i * N + j] = nb; while (!st.empty()) { auto [a, b] = st.back(); st.pop_back(); br.back().push_back({a, b}); for (int da = -2; da <= 2; ++da) for (int db = -2; db <= 2; ++db) { int x = a + da, y = b + db; if (x >= 0 && y >= 0 && x < N && y < N && lab[x * N + y] < 0 && hit(x, y)) { lab[x * N + y] = nb; st.push_back({x, y}); } } } ++nb; }
    double f2[6]; for (int i = 0; i < 6; ++i) f2[i] = q[i] + f[i]; double wx0 = -h - .02 - g.uni(0, .5), wx1 = h + .02 + g.uni(0, .5), wy0 = -h - .02 - g.uni(0, .5), wy1 = h + .02 + g.uni(0, .5); if (g.p(.6)) { (g.p(.5) ? wx0 : wx1) *= g.uni(1, 3); (g.p(.5) ? wy0 : wy1) *= g.uni(1, 3); } if (g.p(.4)) std::swap(wx0, wx1); if (g.p(.4)) std::swap(wy0, wy1); // the second sheet may reach further, and may run the other way
    auto a = graph(g, L, f2, false, 2, g.i(0, 1)), b = graphOn(g, wx0, wx1, wy0, wy1, f, false, 2, g.i(0, 1)); if (g.p(.3)) b = transposed(b); bool sw = g.p(.5); auto M = g.p(.6) ? rotation(g) : ID; a = apply(M, a); b = apply(M, b); if (sw) std::swap(a, b); c.d << "branches " << nb << " tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    cmmcore::Intersection r; RESET; cmmcore::findStartIntersectionPoints(a, b, tol, r); sound(c, a, b, tol, r); std::vector<vec3> got; for (auto &x : r.patches) { got.push_back(x.start.point); got.push_back(x.end.point); } for (auto &x : r.points) got.push_back(x.xyz);
    for (auto &z : got) z = vec3(M.m[0][0] * z.x + M.m[1][0] * z.y + M.m[2][0] * z.z, M.m[0][1] * z.x + M.m[1][1] * z.y + M.m[2][1] * z.z, 0);
    for (auto &B : br) { double steep = 1e9; for (auto &[i, j] : B) { double x = X(i) + h / N, y = X(j) + h / N; steep = std::min(steep, std::hypot(q[1] + 2 * q[3] * x + q[4] * y, q[2] + q[4] * x + 2 * q[5] * y)); } if (B.size() < 40 || steep < .15) continue; bool near = false; for (auto &z : got) for (auto &[i, j] : B) near |= std::hypot(z.x - X(i) - h / N, z.y - X(j) - h / N) < 2.5 * L / N + 20 * tol; H::stat("branches"); c.check(near, "branch-missed", [&] { return S("a branch of ", B.size(), " cells near (", X(B[0].first), ",", X(B[0].second), ") of ", nb, ", ", got.size(), " points reported"); }); }
    // a branch that leaves the first sheet through its border ends there
    for (int side = 0; side < 4; ++side) { double fix = side & 1 ? h : -h; auto along = [&](double t) { return side < 2 ? at(fix, t) : at(t, fix); }; for (int i = 4; i < N - 4; ++i) { double t0 = X(i), t1 = X(i + 1), y0 = along(t0), y1 = along(t1); if (!(y0 * y1 < 0)) continue; double t = t0 - y0 * (t1 - t0) / (y1 - y0), x = side < 2 ? fix : t, y = side < 2 ? t : fix, gx = q[1] + 2 * q[3] * x + q[4] * y, gy = q[2] + q[4] * x + 2 * q[5] * y, al = fabs(side < 2 ? gy : gx); if (al < .15 || al < .2 * std::hypot(gx, gy)) continue; bool near = false; for (auto &z : got) near |= std::hypot(z.x - x, z.y - y) < .02 + 20 * tol; H::stat("branch-ends"); c.check(near, "branch-end-missed", [&] { return S("the intersection crosses the border at (", x, ",", y, "), ", got.size(), " points reported"); }); } }
}
SUITE(branches, 200, 6000) { branches(c, false); }
SUITE(loops, 600, 9000) { branches(c, true); }
SUITE(touching, 60, 1500) { // tangent contact at one point, and surfaces smaller than the tolerance
    Rng &g = c.rng; bool tiny = g.p(.4); double k = g.uni(.2, .6), f = g.uni(0, .8), e = g.p(.5) ? g.uni(.6, 1.4) : -g.uni(.6, 1.4), sc = tiny ? g.uni(.002, .01) : 1, tol = tiny ? .05 : g.uni(.05, .12); double qa[6] = {0, 0, 0, -k * (1 - f), 0, -k * e * (1 - f)}, qb[6] = {g.p(.5) ? 0 : g.uni(-.4, .4) * tol, 0, 0, k * f, 0, k * e * f}; auto a = graph(g, 2, qa, false, 2, g.i(0, 1)), b = graph(g, 2 * g.uni(.9, 1.1), qb, false, 2, g.i(0, 1)); auto M = g.p(.6) ? rotation(g) : ID; for (auto &row : M.m) for (double &x : row) x *= sc; a = apply(M, a); b = apply(M, b); c.d << "tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b)));
    cmmcore::Intersection r; RESET; cmmcore::findStartIntersectionPoints(a, b, tol, r); EXAMINED; H::stat("points", r.points.size()); H::stat("patches", r.patches.size()); sound(c, a, b, tol, r); if (tiny) { if (qb[0] == 0) c.check(r.points.size() >= 1, "tiny-missed"); } else if (e < 0 && qb[0] == 0) c.check(r.points.size() + r.patches.size() > 0, "crossing-branches-missed");
}
SUITE(shallow, 10, 400) { // crossings at a small angle between curved sheets: the normals separate only on small pieces
    Rng &g = c.rng; double L = 2, sl = pow(10, g.uni(-1.45, -1)), an = g.uni(.4, 1.1) + g.i(0, 3) * 1.5707963, k = g.uni(.2, .5) * (g.p(.5) ? 1 : -1), e = g.uni(.5, 1.5) * (g.p(.7) ? 1 : -1), tol = sl * pow(10, g.uni(-2.2, -1.2)), cr = g.p(.8) ? g.uni(.85, .95) : g.uni(0, .85), x0 = cr * (cos(an) > 0 ? 1 : -1), y0 = cr * (sin(an) > 0 ? 1 : -1), dx = sl * cos(an), dy = sl * sin(an); double qb[6] = {0, g.uni(-.1, .1), g.uni(-.1, .1), k, 0, k * e}, qa[6] = {qb[0] - dx * x0 - dy * y0, qb[1] + dx, qb[2] + dy, k, 0, k * e}; // the sheets differ by a linear function of that slope
    auto a = graph(g, L, qa, false, 2, 0), b = graph(g, L * g.uni(1, 1.1), qb, false, 2, 0); auto M = g.p(.6) ? rotation(g) : ID; a = apply(M, a); b = apply(M, b); if (g.p(.4)) std::swap(a, b); c.d << "slope " << sl << " tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); cmmcore::Intersection r; RESET; cmmcore::findStartIntersectionPoints(a, b, tol, r); EXAMINED; H::stat("points", r.points.size()); H::stat("patches", r.patches.size()); sound(c, a, b, tol, r); c.check(r.points.size() + r.patches.size() > 0, "missed", [&] { return S("slope ", sl, " tol ", tol); });
    auto back = [&](const vec3 &z) { return std::pair<double, double>{M.m[0][0] * z.x + M.m[1][0] * z.y + M.m[2][0] * z.z, M.m[0][1] * z.x + M.m[1][1] * z.y + M.m[2][1] * z.z}; }; for (auto &x : r.patches) for (auto *pt : {&x.start, &x.end}) { auto [X, Y] = back(pt->point); c.check(fabs(dx * (X - x0) + dy * (Y - y0)) <= 1.02 * tol * (1 + 2 * (fabs(k) * 2 * (1 + fabs(e)) + .3)) + 1e-9, "off-the-line", [&] { return S("(", X, ",", Y, ")"); }); }
}
SUITE(slivers, 60, 4000) { // pieces below the tolerance in some directions only
    Rng &g = c.rng; double tol = g.uni(.02, .06), thin = tol * g.uni(.1, .6); int kind = g.i(0, 2), ax = g.i(0, 2); double k = g.uni(.1, .4), qa[6] = {0, 0, 0, -k, 0, g.p(.5) ? -k : k}, qb[6] = {0, g.uni(-.2, .2), g.uni(-.2, .2), k, 0, k}; double la = kind == 0 ? thin : g.uni(.5, 1.5), lb = thin; // tiny x long strip, long strip x tiny strip, big sheet x strip
    auto a = kind == 2 ? graph(g, 2 * la, qa, false, 2, 0) : graphOn(g, -la / 2, la / 2, -thin / 2, thin / 2, qa, false, 2, 0), b = graphOn(g, -lb / 2, lb / 2, -g.uni(.4, 1), g.uni(.4, 1), qb, false, 2, 0); M3 P = ID; if (ax == 1) P = {{{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}}; if (ax == 2) P = {{{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}}; if (g.p(.3)) P = rotation(g); M3 Q = {{{1, 0, 0}, {0, 0, -1}, {0, 1, 0}}}; if (kind == 2 || g.p(.5)) b = apply(Q, b); a = apply(P, a); b = apply(P, b); if (g.p(.5)) std::swap(a, b); c.d << "kind " << kind << " tol=" << tol << " "; describe(c, a); describe(c, b); c.nontrivial(hcomb(fp(a), fp(b))); cmmcore::Intersection r; RESET; cmmcore::findStartIntersectionPoints(a, b, tol, r); EXAMINED; H::stat("points", r.points.size()); H::stat("patches", r.patches.size()); sound(c, a, b, tol, r);
}
HARNESS_MAIN
