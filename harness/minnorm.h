// Distance from the origin to the convex hull of a set, by Wolfe's min-norm-point algorithm in long double.
// Works on any small set; used as an oracle, independent of the library's GJK. Scales are normalised internally.
// |x| is an upper bound of the distance; minNormLow gives a certified lower bound (support in the direction of x).
#pragma once
template<class V> inline bool mnSolve(const std::vector<V> &q, std::vector<ld> &lam) { // affine minimiser: [0 1;1 G][mu;lam]=[1;0]
    int n = (int) q.size() + 1; std::vector<std::vector<ld>> A(n, std::vector<ld>(n + 1, 0)); A[0][n] = 1; for (int i = 1; i < n; ++i) { A[0][i] = A[i][0] = 1; for (int j = 1; j < n; ++j) A[i][j] = q[i - 1].dot(q[j - 1]); }
    for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i; if (fabsl(A[p][k]) < 1e-17L) return false; std::swap(A[k], A[p]); for (int i = 0; i < n; ++i) if (i != k) { ld f = A[i][k] / A[k][k]; if (f != 0) for (int j = k; j <= n; ++j) A[i][j] -= f * A[k][j]; } }
    lam.resize(n - 1); for (int i = 1; i < n; ++i) lam[i - 1] = A[i][n] / A[i][i]; return true;
}
template<class V> inline V minNorm(std::vector<V> s) {
    ld sc = 0; for (auto &p : s) sc = std::max(sc, p.norm()); if (sc == 0) return s[0]; for (auto &p : s) p = p * (1 / sc);
    size_t b = 0; for (size_t i = 1; i < s.size(); ++i) if (s[i].norm() < s[b].norm()) b = i; std::vector<V> Q{s[b]}; std::vector<ld> w{1}; V x = s[b];
    for (int it = 0; it < 300; ++it) {
        size_t j = 0; for (size_t i = 1; i < s.size(); ++i) if (x.dot(s[i]) < x.dot(s[j])) j = i; if (x.norm() < 1e-15L || x.dot(x) - x.dot(s[j]) <= 1e-16L * std::max(x.norm(), (ld) 1e-15L)) break; bool in = false; for (auto &q : Q) in = in || (q - s[j]).norm() == 0; if (in) break; Q.push_back(s[j]); w.push_back(0);
        for (int in2 = 0; in2 < 20; ++in2) {
            std::vector<ld> l; if (!mnSolve(Q, l)) { Q.pop_back(); w.pop_back(); ld t = 0; for (auto v : w) t += v; if (t <= 0) return x * sc; goto done; } bool pos = true; for (auto v : l) if (v < 0) pos = false; if (pos) { w = l; break; }
            ld th = 1; for (size_t i = 0; i < l.size(); ++i) if (l[i] < 0) th = std::min(th, w[i] / (w[i] - l[i])); std::vector<V> Q2; std::vector<ld> w2; for (size_t i = 0; i < l.size(); ++i) { ld v = th * l[i] + (1 - th) * w[i]; if (v > 1e-18L) { Q2.push_back(Q[i]); w2.push_back(v); } } if (Q2.empty()) return x * sc; Q = Q2; w = w2;
        }
        x = x * 0; for (size_t i = 0; i < Q.size(); ++i) x = x + Q[i] * w[i];
    }
done:
    return x * sc;
}
template<class V> inline ld minNormLow(const std::vector<V> &s, V *px = nullptr) { if (s.empty()) return 1e300L; V x = minNorm(s); if (px) *px = x; ld n = x.norm(); if (n == 0) return 0; ld m = 1e300L; for (auto &p : s) m = std::min(m, p.dot(x) / n); return std::max(m, (ld) 0); }
