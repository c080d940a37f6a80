// Matrix identities against long-double textbook definitions.
#include "common.h"
#include "cmmcore/matrix.h"
#include "cmmcore/newthon2.h"
using namespace H; using namespace cmmcore;
typedef std::vector<std::vector<ld>> M;
static std::string str(const M &m) { std::string r = "["; for (auto &x : m) { r += "["; for (auto v : x) r += S((double) v, " "); r += "]"; } return r + "]"; }
static uint64_t fp(const M &m) { uint64_t h = m.size() * 31 + (m.empty() ? 0 : m[0].size()); for (auto &x : m) for (auto v : x) h = hcomb(h, hd((double) v)); return h; }
static M mul(const M &a, const M &b) { size_t n = a.size(), k = b.size(), m = b[0].size(); M r(n, std::vector<ld>(m, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) for (size_t t = 0; t < k; ++t) r[i][j] += a[i][t] * b[t][j]; return r; }
static M rnd(Rng &g, int n, int m, int kind, double s) { M r(n, std::vector<ld>(m)); for (auto &x : r) for (auto &v : x) v = (double) (kind == 0 ? g.i(-5, 5) : kind == 1 ? g.gauss() : g.gauss() * pow(10, g.uni(-2, 2))) * s; return r; }
static ld maxabs(const M &m) { ld r = 0; for (auto &x : m) for (auto v : x) r = std::max(r, fabsl(v)); return r; }
// inverse by fully pivoted elimination in long double, 1-norm-like condition; false if (numerically) singular
static bool inv(const M &a, M &out, ld &cond) { int n = a.size(); M w(n, std::vector<ld>(2 * n, 0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) w[i][j] = a[i][j]; w[i][n + i] = 1; } std::vector<int> colOf(n); std::vector<bool> used(n, false); for (int k = 0; k < n; ++k) { int pr = -1, pc = -1; ld best = 0; for (int i = k; i < n; ++i) for (int j = 0; j < n; ++j) if (!used[j] && fabsl(w[i][j]) > best) { best = fabsl(w[i][j]); pr = i; pc = j; } if (pr < 0) return false; std::swap(w[k], w[pr]); used[pc] = true; colOf[k] = pc; ld p = w[k][pc]; for (auto &v : w[k]) v /= p; for (int i = 0; i < n; ++i) if (i != k) { ld f = w[i][pc]; if (f != 0) for (int j = 0; j < 2 * n; ++j) w[i][j] -= f * w[k][j]; } } out.assign(n, std::vector<ld>(n)); for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) out[colOf[k]][j] = w[k][n + j]; cond = maxabs(a) * maxabs(out) * n * n; return std::isfinite((double) cond); }
static MatrixD toD(const M &m, size_t r, size_t cc) { MatrixD d(r, cc); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < cc; ++j) d(i, j) = (double) m[i][j]; return d; }
static bool close(const MatrixD &d, const M &m, ld tol, std::string &why) { if (d.getRows() != m.size() || d.getCols() != m[0].size()) { why = S("shape ", d.getRows(), "x", d.getCols(), " expected ", m.size(), "x", m[0].size()); return false; } for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) if (!(fabsl(d(i, j) - m[i][j]) <= tol)) { why = S("entry ", i, ",", j, " is ", d(i, j), " expected ", (double) m[i][j], " tolerance ", (double) tol); return false; } return true; }
SUITE(dense, 5000, 300000) {
    Rng &g = c.rng; int n = g.i(1, 7), k = g.i(1, 7), m = g.i(1, 7), kind = g.i(0, 2); double s = g.p(.5) ? 1 : pow(10, g.uni(-8, 8)); M a = rnd(g, n, k, kind, s), b = rnd(g, k, m, kind, 1), d = rnd(g, m, g.i(1, 4), kind, 1); c.d << str(a) << str(b); c.nontrivial(hcomb(fp(a), fp(b))); MatrixD A = toD(a, n, k), B = toD(b, k, m), D = toD(d, m, d[0].size()); std::string w; auto msg = [&] { return w; }; ld sc = maxabs(a) * maxabs(b) * 10; c.check(A.getRows() == (size_t) n && A.getCols() == (size_t) k, "shape"); MatrixD Z(n, k); bool z = true; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) z = z && Z(i, j) == 0; c.check(z, "fresh-not-zero");
    c.check(close(A, a, 0, w), "stored-values", msg); c.check(close(A * B, mul(a, b), 1e-14L * sc, w), "product", msg); M at(k, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) at[j][i] = a[i][j]; c.check(close(A.transpose(), at, 0, w), "transpose", msg); c.check(close(A.transpose().transpose(), a, 0, w), "transpose-twice", msg); c.check(close((A * B) * D, mul(a, mul(b, d)), 1e-13L * sc * maxabs(d) * 10, w) && close(A * (B * D), mul(a, mul(b, d)), 1e-13L * sc * maxabs(d) * 10, w), "associativity", msg); c.check(close(A, a, 0, w), "operand-changed", msg);
    int bad = g.i(1, 7); if (bad != k) { MatrixD X(bad, m); bool thrown = false; try { MatrixD r = A * X; } catch (const std::exception &) { thrown = true; } c.check(thrown, "mismatched-product-accepted", [&] { return S(n, "x", k, " times ", bad, "x", m); }); } if (n != k) { bool thrown = false; try { MatrixD r = A.inverse(); } catch (const std::exception &) { thrown = true; } c.check(thrown, "non-square-inverse-accepted", [&] { return S(n, "x", k); }); }
}
SUITE(inverse, 4000, 250000) {
    Rng &g = c.rng; int n = g.i(1, 8), kind = g.i(0, 4); double s = g.p(.4) ? 1 : pow(10, g.uni(-12, 12)); M a; ld cond = 1e30L; M ia; ld lim = kind == 4 ? 1e10L : 1e7L; if (kind == 3) { a = rnd(g, n, n, 1, 0); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; g.shuffle(p); for (int i = 0; i < n; ++i) { a[i][p[i]] = (double) (g.i(1, 9) * s); if (g.p(.5)) a[i][g.i(0, n - 1)] += (double) (.25 * s); } } else for (int t = 0; t < 50; ++t) { a = rnd(g, n, n, kind == 2 || kind == 4 ? 1 : kind, s); if (kind == 4 && n > 1) { /* one row or column almost a multiple of another */ double e = pow(10, g.uni(-8.5, -5)), f = g.uni(-2, 2); int u = g.i(0, n - 1), v = (u + g.i(1, n - 1)) % n; bool col = g.p(.5); for (int j = 0; j < n; ++j) { if (col) a[j][u] = (double) (a[j][v] * f + e * a[j][u]); else a[u][j] = (double) (a[v][j] * f + e * a[u][j]); } } if (kind == 2) for (int i = 0; i < n; ++i) a[i][i] = 0; if (inv(a, ia, cond) && cond < lim) break; } for (auto &x : a) for (auto &v : x) v = (double) v; if (!inv(a, ia, cond) || cond > lim) return; c.d << str(a); c.nontrivial(fp(a)); std::string w; auto msg = [&] { return S(w, " condition ", (double) cond); }; MatrixD A = toD(a, n, n); MatrixD I; try { I = A.inverse(); } catch (const std::exception &e) { c.check(false, "invertible-rejected", [&] { return S(e.what(), " condition ", (double) cond); }); return; } c.check(close(I, ia, 1e-14L * cond * maxabs(ia) * n, w), "inverse", msg); M id(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; ++i) id[i][i] = 1; c.check(close(A * I, id, 1e-14L * cond * n, w) && close(I * A, id, 1e-14L * cond * n, w), "identity", msg); c.check(close(A, a, 0, w), "operand-changed", msg);
}
SUITE(singular, 2500, 120000) { // integer matrices with a zero or repeated or dependent row: must be refused
    Rng &g = c.rng; int n = g.i(1, 6), kind = g.i(0, 3); double s = ldexp(1, g.i(-40, 40)); M a = rnd(g, n, n, 0, 1); int i = g.i(0, n - 1), j = g.i(0, n - 1); if (kind == 0 || i == j) for (auto &v : a[i]) v = 0; else if (kind == 1) a[i] = a[j]; else if (kind == 2) { for (int t = 0; t < n; ++t) { a[i][t] = 0; for (int r = 0; r < n; ++r) if (r != i) a[i][t] += a[r][t] * (r % 3 - 1); } } else for (int t = 0; t < n; ++t) a[t][i] = a[t][j] * 2; for (auto &x : a) for (auto &v : x) v *= s; c.d << str(a); c.nontrivial(fp(a)); MatrixD A = toD(a, n, n); bool thrown = false; double r00 = 0; try { MatrixD r = A.inverse(); r00 = r(0, 0); } catch (const std::exception &) { thrown = true; } c.check(thrown, "singular-inverted", [&] { return S("inverse(0,0)=", r00); });
}
SUITE(two, 4000, 250000) {
    Rng &g = c.rng; int kind = g.i(0, 2); double s = g.p(.5) ? 1 : pow(10, g.uni(-20, 20)); M a = rnd(g, 2, 2, kind, s), b = rnd(g, 2, 2, kind, 1); double p = (double) a[0][0], q = (double) a[0][1], r = (double) a[1][0], t = (double) a[1][1]; c.d << str(a) << str(b); c.nontrivial(hcomb(fp(a), fp(b))); auto get = [](const Matrix2x2 &m) { return M{{m[0][0], m[0][1]}, {m[1][0], m[1][1]}}; }; auto eq = [&](const Matrix2x2 &m, const M &e, ld tol) { auto x = get(m); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (!(fabsl(x[i][j] - e[i][j]) <= tol)) return false; return true; };
    Matrix2x2 A(p, q, r, t), A2{{p, q}, {r, t}}, B((double) b[0][0], (double) b[0][1], (double) b[1][0], (double) b[1][1]); std::array<double, 2> r0{p, q}, r1{r, t}; Matrix2x2 A3(r0, r1), A4(A), Z; auto sh = [&](const Matrix2x2 &m) { return [&] { return S("stored ", str(get(m))); }; }; c.check(eq(A, a, 0), "values", sh(A)); c.check(eq(A2, a, 0), "initializer-list", sh(A2)); c.check(eq(A3, a, 0), "rows", sh(A3)); c.check(eq(A4, a, 0), "copy", sh(A4)); c.check(eq(Z, {{0, 0}, {0, 0}}, 0), "default", sh(Z)); c.check(eq(Matrix2x2::eye(), {{1, 0}, {0, 1}}, 0), "eye"); c.check(eq(Matrix2x2::fromDiag({p, t}), {{(ld) p, 0}, {0, (ld) t}}, 0), "fromDiag"); c.check(eq(A.transpose(), {{(ld) p, (ld) r}, {(ld) q, (ld) t}}, 0), "transpose");
    Matrix2x2 A5; A5[0][1] = q; A5[0][0] = p; A5[1][0] = r; A5[1][1] = t; c.check(eq(A5, a, 0), "element-write", sh(A5)); ld det = a[0][0] * a[1][1] - a[0][1] * a[1][0], mag = fabsl(a[0][0] * a[1][1]) + fabsl(a[0][1] * a[1][0]); c.check(fabsl(A.det() - det) <= 1e-15L * mag * 2, "det", [&] { return S(A.det(), " expected ", (double) det); }); c.check(eq(A * B, mul(a, b), 1e-14L * maxabs(a) * maxabs(b)), "product"); std::array<double, 2> v{g.gauss(), g.gauss()}, av = A * v; for (int i = 0; i < 2; ++i) c.check(fabsl(av[i] - (a[i][0] * v[0] + a[i][1] * v[1])) <= 1e-14L * maxabs(a) * 4, "vector-product");
    std::array<double, 2> x{9e99, 9e99}; if (fabsl(det) > 1e-6L * mag) { ld cond = mag / fabsl(det); M iv{{a[1][1] / det, -a[0][1] / det}, {-a[1][0] / det, a[0][0] / det}}; c.check(eq(A.inverse(), iv, 1e-14L * cond * maxabs(iv)), "inverse", [&] { return S(str(get(A.inverse())), " expected ", str(iv)); }); bool ok = solve2x2(A, v, x); c.check(ok, "solve-rejected"); ld vm = std::max(fabs(v[0]), fabs(v[1])); for (int i = 0; ok && i < 2; ++i) { ld e = iv[i][0] * v[0] + iv[i][1] * v[1]; c.check(fabsl(x[i] - e) <= 1e-14L * cond * maxabs(iv) * vm * 4, "solve", [&] { return S("x", i, " = ", x[i], " expected ", (double) e); }); } }
    if (kind == 0) { double f = g.i(-3, 3), u = ldexp(g.i(-5, 5), g.i(-20, 20)), w = ldexp(g.i(-5, 5), g.i(-20, 20)); bool tr = g.p(.5); Matrix2x2 Q = tr ? Matrix2x2(u, f * u, w, f * w) : Matrix2x2(u, w, f * u, f * w); c.check(!solve2x2(Q, v, x), "singular-solved", [&] { return str(get(Q)); }); bool thrown = false; try { Q.inverse(); } catch (const std::exception &) { thrown = true; } c.check(thrown, "singular-inverted", [&] { return str(get(Q)); }); }
}
template<size_t N> static void chol(Case &c) {
    Rng &g = c.rng; double s = pow(10, g.uni(-6, 6)); M b = rnd(g, N, N, 1, 1), bt(N, std::vector<ld>(N)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) bt[j][i] = b[i][j]; M a = mul(b, bt); for (size_t i = 0; i < N; ++i) a[i][i] += g.uni(0, 1); for (auto &x : a) for (auto &v : x) v = (double) (v * s); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) a[i][j] = a[j][i]; M ia; ld cond; if (!inv(a, ia, cond) || cond > 1e7L) return; c.d << str(a); c.nontrivial(fp(a)); MatrixSq<N> A{}, L; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { A[i][j] = (double) a[i][j]; L[i][j] = 7e77; } ld mx = maxabs(a);
    if (!c.check(choleskyDecomposition<N>(A, L), "positive-definite-rejected")) return; for (size_t i = 0; i < N; ++i) { c.check(L[i][i] > 0, "diagonal-not-positive"); for (size_t j = 0; j < N; ++j) { if (j > i) c.check(L[i][j] == 0, "not-lower-triangular", [&] { return S(i, ",", j, " = ", L[i][j]); }); ld v = 0; for (size_t k = 0; k < N; ++k) v += (ld) L[i][k] * L[j][k]; c.check(fabsl(v - a[i][j]) <= 1e-14L * mx * N, "factor", [&] { return S(i, ",", j, " LLt ", (double) v, " expected ", (double) a[i][j]); }); } }
    Vector<N> rhs, x, y, z; for (auto &v : rhs) v = g.gauss(); x.fill(7e77); y.fill(7e77); z.fill(7e77); c.check(solveLinearSystem<N>(A, rhs, x), "solve-rejected"); forwardSubstitution<N>(L, rhs, y); backwardSubstitution<N>(L, y, z); for (size_t i = 0; i < N; ++i) { ld e = 0, yl = 0; for (size_t j = 0; j < N; ++j) { e += ia[i][j] * rhs[j]; yl += (ld) L[i][j] * y[j]; } ld tol = 1e-13L * cond * maxabs(ia) * 4 * N; c.check(fabsl(x[i] - e) <= tol, "solve", [&] { return S("x", i, " = ", x[i], " expected ", (double) e); }); c.check(fabsl(z[i] - e) <= tol, "back-substitution", [&] { return S("x", i, " = ", z[i], " expected ", (double) e); }); c.check(fabsl(yl - rhs[i]) <= 1e-13L * cond * 4 * N, "forward-substitution"); }
    // not positive definite: a symmetric matrix with a clearly negative or zero eigenvalue must be refused
    MatrixSq<N> Q{}; M q(N, std::vector<ld>(N, 0)); for (size_t i = 0; i < N; ++i) q[i][i] = g.i(1, 5); size_t bad = g.i(0, N - 1); q[bad][bad] = -g.i(0, 4); if (N > 1 && g.p(.6)) { M e(N, std::vector<ld>(N, 0)), et = e; for (size_t i = 0; i < N; ++i) { e[i][i] = 1; for (size_t j = 0; j < i; ++j) e[i][j] = g.i(-2, 2); } for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) et[j][i] = e[i][j]; q = mul(mul(e, q), et); } for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) Q[i][j] = (double) q[i][j]; if (q[bad][bad] != 0 || true) { ld lmin = 0; bool neg = false; (void) lmin; for (size_t i = 0; i < N; ++i) if (q[i][i] < 0) neg = true; bool ok = solveLinearSystem<N>(Q, rhs, x); if (neg) c.check(!ok, "indefinite-accepted", [&] { return str(q); }); else if (ok) { bool fin = true; for (auto v : x) fin = fin && std::isfinite(v); (void) fin; } bool diag = true; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != j && q[i][j] != 0) diag = false; if (diag) c.check(!ok, "indefinite-accepted", [&] { return str(q); }); }
    Vector<N> u, w; ld dp = 0; for (size_t i = 0; i < N; ++i) { u[i] = g.gauss(); w[i] = g.gauss(); dp += (ld) u[i] * w[i]; } c.check(fabsl(dotProduct<N>(u, w) - dp) < 1e-13L * N, "dot");
}
SUITE(cholesky, 4000, 250000) { switch (c.rng.i(1, 6)) { case 1: chol<1>(c); break; case 2: chol<2>(c); break; case 3: chol<3>(c); break; case 4: chol<4>(c); break; case 5: chol<5>(c); break; default: chol<6>(c); } }
HARNESS_MAIN
