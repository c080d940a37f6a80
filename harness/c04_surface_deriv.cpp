// Surface partial derivatives, normals, rational derivative formula, derivative nets and surfaces.
#include "gen.h"
using namespace G;
static bool away(const std::vector<double> &U, double t, double tol) { for (double u : U) if (std::fabs(u - t) < tol) return false; return true; }
static std::vector<std::vector<ld>> pascal() { std::vector<std::vector<ld>> b(31, std::vector<ld>(31, 0)); for (int n = 0; n < 31; ++n) { b[n][0] = 1; for (int k = 1; k <= n; ++k) b[n][k] = b[n - 1][k - 1] + (k <= n - 1 ? b[n - 1][k] : 0); } return b; }

SUITE(partials, 2500, 60000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 5; o.open = .15; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); ld sc = scaleOf(r); double h = 1e-5; auto dom = valid(s);
    double Lu = dom[0][1] - dom[0][0], Lv = dom[1][1] - dom[1][0];
    for (int q = 0; q < 4; ++q) {
        double u = g.uni(dom[0][0], dom[0][1]), v = g.uni(dom[1][0], dom[1][1]);
        if (!away(s._knots_u, u, 1e-3 * Lu) || !away(s._knots_v, v, 1e-3 * Lv)) continue;
        R::P3 eu = R::dU(r, u, v), ev = R::dV(r, u, v); vec3 du, dv, n;
        ld m3u = 0, m3v = 0; for (int k = -2; k <= 2; ++k) { m3u = std::max(m3u, (R::dU(r, u + k * h, v) - eu).norm()); m3v = std::max(m3v, (R::dV(r, u, v + k * h) - ev).norm()); }
        ld cancel = 64 * 2.3e-16L * sc / h; ld tu = cancel + 2 * m3u + 1e-6L * eu.norm(), tv = cancel + 2 * m3v + 1e-6L * ev.norm();
        s.derivative_u(u, v, du); s.derivative_v(u, v, dv);
        c.check(finite(du) && gap(du, eu) <= tu, "derivative-u", [&] { return S("u=", u, " v=", v, " got ", str(du), " expected ", str(eu)); });
        c.check(finite(dv) && gap(dv, ev) <= tv, "derivative-v", [&] { return S("u=", u, " v=", v, " got ", str(dv), " expected ", str(ev)); });
        R::P3 en = eu.cross(ev); ld nn = en.norm(); ld err = (tu * ev.norm() + tv * eu.norm() + tu * tv);
        if (nn > 1e-9L && err < 0.05L * nn) {
            s.normal(u, v, n); c.check(std::fabs((double) p3(n).norm() - 1) <= 1e-9, "normal-unit", [&] { return S("u=", u, " v=", v, " normal ", str(n), " |cross| ", (double) nn); });
            c.check((p3(n) - en * (1 / nn)).norm() <= 4 * err / nn + 1e-9L, "normal-direction", [&] { return S("u=", u, " v=", v, " normal ", str(n), " expected ", str(en * (1 / nn))); });
        }
    }
}
// S satisfies the Leibniz identity A^(k,l) = sum C(k,i) C(l,j) w^(i,j) S^(k-i,l-j).
SUITE(rational_formula, 2000, 40000) {
    Rng &g = c.rng; static auto B = pascal(); int d = g.i(1, 5); std::vector<std::vector<vec4>> A(d + 1, std::vector<vec4>(d + 1)), Sd;
    for (auto &row : A) for (auto &v : row) v = vec4(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3), g.uni(-1, 1)); A[0][0].w = g.uni(.5, 3);
    c.d << "order " << d << " A00=" << A[0][0].x << "," << A[0][0].w; c.nontrivial(hcomb(hd(A[0][0].x), hd(A[0][0].w)));
    cmmcore::rat_surface_derivs(A, d, Sd);
    ld mx = 1; for (int k = 0; k <= d; ++k) for (int l = 0; l <= d; ++l) for (int e = 0; e < 3; ++e) mx = std::max<ld>(mx, fabsl(Sd[k][l][e]));
    for (int k = 0; k <= d; ++k) for (int l = 0; l <= d; ++l) for (int e = 0; e < 3; ++e) {
        ld sum = 0; for (int i = 0; i <= k; ++i) for (int j = 0; j <= l; ++j) sum += B[k][i] * B[l][j] * A[i][j].w * Sd[k - i][l - j][e];
        c.check(fabsl(sum - A[k][l][e]) <= 1e-11L * mx * 100, "leibniz", [&] { return S("order ", k, ",", l, " component ", e, " residual ", (double) (sum - A[k][l][e])); });
    }
}
SUITE(binomials, 1, 1) {
    auto B = pascal(); c.nontrivial(31); c.d << "all n <= 30";
    for (int n = 0; n <= 30; ++n) for (int k = 0; k <= n; ++k) c.check(cmmcore::binomial_coefficient(n, k) == (long long) B[n][k], "value", [&] { return S("C(", n, ",", k, ")=", cmmcore::binomial_coefficient(n, k)); });
}
// Derivative control nets (documented layout cpts[v][u]).
SUITE(deriv_nets, 1000, 20000) {
    Rng &g = c.rng; SurfOpt o; o.maxDeg = 4; o.rational = 0; o.knotKind = g.p(.5) ? 1 : 0; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s);
    int n = r.nu(), m = r.nv(), p = r.p, q = r.q; std::vector<std::vector<vec4>> T(m + 1, std::vector<vec4>(n + 1)); for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) T[j][i] = s._control_points[i][j];
    int d = g.p(.5) ? g.i(1, std::min(p, q)) : g.i(1, std::max(p, q) + 2); std::vector<std::vector<std::vector<std::vector<vec4>>>> PKL, part; // orders beyond a degree are capped
    cmmcore::surface_deriv_cpts(3, {p, q}, s._knots_u, s._knots_v, T, {n + 1, m + 1}, {0, n}, {0, m}, d, PKL);
    ld sc = scaleOf(r), gu = 1e9L, gv = 1e9L; for (size_t i = 0; i + 1 < r.U.size(); ++i) if (r.U[i + 1] > r.U[i]) gu = std::min<ld>(gu, r.U[i + 1] - r.U[i]); for (size_t i = 0; i + 1 < r.V.size(); ++i) if (r.V[i + 1] > r.V[i]) gv = std::min<ld>(gv, r.V[i + 1] - r.V[i]);
    bool sized = (int) PKL.size() == std::min(d, p) + 1; for (auto &x : PKL) sized = sized && (int) x.size() == std::min(d, q) + 1; if (!c.check(sized, "orders", [&] { return S("order ", d, " of degrees ", p, ",", q, ": ", PKL.size(), " x ", PKL.empty() ? 0 : PKL[0].size()); })) return;
    std::vector<int> ru{g.i(0, n - p), 0}, rv{g.i(0, m - q), 0}; ru[1] = g.i(ru[0] + p, n); rv[1] = g.i(rv[0] + q, m); cmmcore::surface_deriv_cpts(3, {p, q}, s._knots_u, s._knots_v, T, {n + 1, m + 1}, ru, rv, d, part);
    for (int k = 0; k <= std::min(d, p); ++k) for (int l = 0; l <= std::min(d - k, q); ++l) for (int i = 0; i <= ru[1] - ru[0] - k; ++i) for (int j = 0; j <= rv[1] - rv[0] - l; ++j) { auto a = p4(part[k][l][i][j]), b = p4(PKL[k][l][ru[0] + i][rv[0] + j]);
        c.check((R::P3{a.x, a.y, a.z} - R::P3{b.x, b.y, b.z}).norm() <= 1e-9L * (1 + R::P3{b.x, b.y, b.z}.norm()), "sub-range", [&] { return S("order ", k, ",", l, " at ", i, ",", j, " of [", ru[0], ",", ru[1], "]x[", rv[0], ",", rv[1], "]"); }); }
    for (int k = 0; k <= std::min(d, p); ++k) for (int l = 0; l <= std::min(d - k, q); ++l) {
        R::Surf h; h.p = p - k; h.q = q - l; h.U.assign(r.U.begin() + k, r.U.end() - k); h.V.assign(r.V.begin() + l, r.V.end() - l);
        for (int i = 0; i <= n - k; ++i) { h.P.emplace_back(); for (int j = 0; j <= m - l; ++j) h.P.back().push_back(p4(PKL[k][l][i][j])); }
        ld bound = sc; for (int i = 0; i < k; ++i) bound *= 2 * p / gu; for (int i = 0; i < l; ++i) bound *= 2 * q / gv;
        for (int t = 0; t < 2; ++t) { double u = g.uni(r.U[p], r.U[n + 1]), v = g.uni(r.V[q], r.V[m + 1]); R::P4 a = R::hom(h, u, v), b = R::hom(r, u, v, k, l);
            c.check((R::P3{a.x, a.y, a.z} - R::P3{b.x, b.y, b.z}).norm() <= 1e-9L * bound, "net", [&] { return S("order ", k, ",", l, " u=", u, " v=", v); }); }
    }
}
SUITE(derivative_surface, 1500, 30000) {
    Rng &g = c.rng; SurfOpt o; o.minDeg = 2; o.maxDeg = 5; o.rational = 0; o.maxMultMinus = 1; auto s = surface(g, o); describe(c, s); c.nontrivial(fp(s)); auto r = toRef(s); ld sc = scaleOf(r);
    for (int dir = 0; dir < 2; ++dir) {
        NURBSSurface h = s.get_derivative(dir), h2; s.get_derivative(dir, h2);
        for (auto *q : {&h, &h2}) {
            auto sh = s.shape(); sh[dir] -= 1;
            if (!c.check(q->_degree[dir] == s._degree[dir] - 1 && q->_degree[1 - dir] == s._degree[1 - dir] && q->shape() == sh && q->_interval == s._interval && q->_knots_u.size() == sh[0] + q->_degree[0] + 1 && q->_knots_v.size() == sh[1] + q->_degree[1] + 1, "shape", [&] { return S("direction ", dir); })) continue;
            for (int i = 0; i < 4; ++i) {
                double u = i == 0 ? s._interval[0][0] : g.uni(s._interval[0][0], s._interval[0][1]), v = i == 1 ? s._interval[1][1] : g.uni(s._interval[1][0], s._interval[1][1]);
                vec3 a; q->evaluate(u, v, a); R::P3 e = dir ? R::dV(r, u, v) : R::dU(r, u, v); ld L = s._interval[dir][1] - s._interval[dir][0];
                c.check(finite(a) && gap(a, e) <= 1e-9L * (e.norm() + sc / L * 10 * sh[dir]), "value", [&] { return S("dir ", dir, " u=", u, " v=", v, str(a), " expected ", str(e)); });
            }
        }
    }
    bool threw = false; try { s.get_derivative(2); } catch (const std::invalid_argument &) { threw = true; } c.check(threw, "bad-direction-rejected");
}
HARNESS_MAIN
