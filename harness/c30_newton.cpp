// Numerical derivatives against analytic ones; Newton minimisation monitored through its objective.
#include "common.h"
#include "cmmcore/newthon2.h"
using namespace H; using namespace cmmcore;
// smooth objective: offset + quadratic + exponential / sine terms, with exact derivatives
template<size_t N> struct F {
    double A[N][N], m[N], off; int kind; double w[N], amp;
    F(Rng &g, int k, double cs) : kind(k) { double B[N][N]; for (auto &r : B) for (auto &v : r) v = g.gauss(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { A[i][j] = 0; for (size_t t = 0; t < N; ++t) A[i][j] += B[i][t] * B[j][t]; A[i][j] *= cs; if (i == j) A[i][j] += .3 * cs; } for (auto &v : m) v = g.uni(-3, 3); off = g.p(.5) ? 0 : g.uni(-5, 5); for (auto &v : w) v = g.uni(-1, 1); amp = g.uni(.1, 1); }
    ld s(const Vector<N> &x) const { ld r = 0; for (size_t i = 0; i < N; ++i) r += w[i] * ((ld) x[i] - m[i]); return r; }
    ld h(ld t, int d) const { if (kind == 1) return d == 0 ? coshl(t) - 1 : d == 1 ? sinhl(t) : coshl(t); if (kind == 2) return d == 0 ? sinl(3 * t) : d == 1 ? 3 * cosl(3 * t) : -9 * sinl(3 * t); if (kind == 3) return d == 0 ? t * t * t * t : d == 1 ? 4 * t * t * t : 12 * t * t; return 0; }
    double val(const Vector<N> &x) const { ld r = off; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) r += .5L * A[i][j] * ((ld) x[i] - m[i]) * ((ld) x[j] - m[j]); return (double) (r + amp * h(s(x), 0)); }
    ld grad(const Vector<N> &x, size_t i) const { ld r = amp * h(s(x), 1) * w[i]; for (size_t j = 0; j < N; ++j) r += A[i][j] * ((ld) x[j] - m[j]); return r; }
    ld hess(const Vector<N> &x, size_t i, size_t j) const { return A[i][j] + amp * h(s(x), 2) * w[i] * w[j]; }
    void print(std::ostream &o) const { o << "kind " << kind << " min at "; for (auto v : m) o << v << " "; o << " offset " << off << " A "; for (auto &r : A) for (auto v : r) o << v << " "; }
    uint64_t fp() const { uint64_t q = kind * 7 + N; for (auto v : m) q = hcomb(q, hd(v)); return hcomb(q, hd(A[0][0])); } };
struct Quiet { std::streambuf *o; std::ostringstream s; Quiet() { o = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(o); } };
template<size_t N> static void deriv(Case &c) {
    Rng &g = c.rng; F<N> f(g, g.i(0, 3), pow(10, g.uni(-1, 1.5))); Vector<N> x; for (size_t i = 0; i < N; ++i) x[i] = f.m[i] + g.uni(-2, 2); f.print(c.d); c.d << " at "; for (auto v : x) c.d << v << " "; c.nontrivial(hcomb(f.fp(), hd(x[0]))); int calls = 0; std::function<double(const Vector<N> &)> fn = [&](const Vector<N> &p) { ++calls; return f.val(p); }; auto x0 = x; auto gr = computeGradient<N>(fn, x); ld mag = fabsl(f.val(x)) + 1, cur = 0; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) cur = std::max(cur, fabsl(f.hess(x, i, j)) + fabsl(f.hess(x, i, i))); ld gm = 0; for (size_t i = 0; i < N; ++i) gm = std::max(gm, fabsl(f.grad(x, i)));
    for (size_t i = 0; i < N; ++i) c.check(fabsl(gr[i] - f.grad(x, i)) <= 4e-9L * mag + 2e-8L * gm + 1e-9L, "gradient", [&] { return S("component ", i, " ", gr[i], " expected ", (double) f.grad(x, i)); }); auto H = computeHessian<N>(fn, x); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { c.check(fabsl(H[i][j] - f.hess(x, i, j)) <= 2e-5L * mag + 2e-6L * cur + 1e-6L * gm, "hessian", [&] { return S(i, ",", j, " ", H[i][j], " expected ", (double) f.hess(x, i, j)); }); c.check(H[i][j] == H[j][i], "asymmetric"); } c.check(x == x0, "point-changed"); double h = pow(10, g.uni(-5, -3)); auto g2 = computeGradient<N>(fn, x, h); for (size_t i = 0; i < N; ++i) c.check(fabsl(g2[i] - f.grad(x, i)) <= 1e-15L * mag / h + h * h * 40 * (1 + cur), "gradient-step", [&] { return S("h ", h, " component ", i, " ", g2[i], " expected ", (double) f.grad(x, i)); }); double h2 = pow(10, g.uni(-4, -3)); auto H2 = computeHessian<N>(fn, x, h2); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) c.check(fabsl(H2[i][j] - f.hess(x, i, j)) <= 8e-16L * (mag + gm + cur) / (h2 * h2) + h2 * h2 * 400 * (1 + cur) + 1e-13L * gm / h2, "hessian-step", [&] { return S("h ", h2, " ", i, ",", j, " ", H2[i][j], " expected ", (double) f.hess(x, i, j)); });
}
SUITE(derivatives, 3000, 200000) { switch (c.rng.i(1, 4)) { case 1: deriv<1>(c); break; case 2: deriv<2>(c); break; case 3: deriv<3>(c); break; default: deriv<4>(c); } }
template<size_t N> static void newton(Case &c) {
    Rng &g = c.rng; static const int ks[3] = {0, 1, 3}; F<N> f(g, ks[g.i(0, 2)], pow(10, g.uni(-1, 1.5))); double far = g.p(.5) ? .5 : 5; Vector<N> x; for (size_t i = 0; i < N; ++i) x[i] = f.m[i] + g.uni(-far, far); f.print(c.d); c.d << " start "; for (auto v : x) c.d << v << " "; c.nontrivial(hcomb(f.fp(), hd(x[0]))); int calls = 0; std::function<double(const Vector<N> &)> fn = [&](const Vector<N> &p) { if (++calls > 400000) throw std::runtime_error("unbounded work"); return f.val(p); }; double f0 = f.val(x); Quiet q; double tol = g.p(.7) ? 1e-5 : pow(10, g.uni(-7, -3)); auto r = newtonsMethod<N>(fn, x, tol); double f1 = f.val(r); auto msg = [&] { std::string s = S("value ", f0, " -> ", f1, " calls ", calls, " point "); for (auto v : r) s += S(v, " "); return s; }; c.check(f1 <= f0 + 1e-12 * (1 + std::abs(f0)), "value-increased", msg); for (size_t i = 0; i < N; ++i) c.check(std::abs(r[i] - f.m[i]) <= 5 * tol * std::max(1., std::abs(f.m[i])) + 2e-6, "minimum-missed", msg);
    // descent line search
    Vector<N> gr, d; ld gd = 0; for (size_t i = 0; i < N; ++i) { gr[i] = (double) f.grad(x, i); d[i] = -gr[i] * g.uni(.1, 10); gd += (ld) gr[i] * d[i]; } if (gd < -1e-6) { double al = lineSearch<N>(fn, x, d, gr); Vector<N> y; for (size_t i = 0; i < N; ++i) y[i] = x[i] + al * d[i]; c.check(al > 0 && al <= 1 && f.val(y) <= f0 + 1e-4 * al * (double) gd + 1e-12 * (1 + std::abs(f0)), "armijo", [&] { return S("alpha ", al, " value ", f0, " -> ", f.val(y)); }); }
}
SUITE(convex, 2500, 150000) { switch (c.rng.i(1, 4)) { case 1: newton<1>(c); break; case 2: newton<2>(c); break; case 3: newton<3>(c); break; default: newton<4>(c); } }
SUITE(hostile, 1200, 60000) { // non-convex, unbounded, flat or partly non-finite objectives: bounded work, no worse point
    Rng &g = c.rng; int kind = g.i(0, 7); double p = g.uni(-2, 2), q = g.uni(.5, 5); Vector<2> x{g.uni(-4, 4), g.uni(-4, 4)}; int calls = 0; double nan = std::nan(""), inf = INFINITY; auto val = [&](const Vector<2> &v) -> double { double a = v[0] - p, b = v[1]; switch (kind) { case 0: return std::log(a) + b * b; case 1: return std::sqrt(a) + b * b; case 2: return a < 0 ? nan : a * a + b * b; case 3: return a < 0 ? inf : a * a + b * b; case 4: return std::sin(q * a) * std::cos(q * b); case 5: return a * a * a + b; case 6: return 3.5; default: return (1 - a) * (1 - a) + 100 * (b - a * a) * (b - a * a); } }; std::function<double(const Vector<2> &)> fn = [&](const Vector<2> &v) { if (++calls > 1000000) throw std::runtime_error("unbounded work"); return val(v); }; c.d << "kind " << kind << " p " << p << " q " << q << " start " << x[0] << " " << x[1]; c.nontrivial(hcomb(hcomb(kind, hd(p)), hd(x[0]))); double f0 = val(x); Quiet qq; auto r = newtonsMethod<2>(fn, x); double f1 = val(r); auto msg = [&] { return S("value ", f0, " -> ", f1, " at ", r[0], ",", r[1], " calls ", calls); }; if (std::isfinite(f0)) c.check(f1 <= f0 + 1e-9 * (1 + std::abs(f0)), "value-increased-or-lost", msg); c.check(calls > 0, "ran"); if (kind == 7) c.check(std::abs(r[0] - p - 1) < 1e-3 && std::abs(r[1] - 1) < 1e-3, "rosenbrock-minimum-missed", msg); int it = g.i(0, 5); calls = 0; newtonsMethod<2>(fn, x, 1e-5, it); c.check(calls <= it * (5 + 9 + 1200 + 20) + 5, "iteration-limit-ignored", [&] { return S("limit ", it, " calls ", calls); });
}
HARNESS_MAIN
