// Independent reference model (long double): B-spline basis by the Cox-de Boor recursion and its
// derivative recursion, rational curves/surfaces by the Leibniz quotient rule. Written from the
// textbook definition; shares no code with /repo.
#pragma once
#include "common.h"

namespace R {
typedef long double ld;
struct P4 { ld x = 0, y = 0, z = 0, w = 0; };
struct P3 { ld x = 0, y = 0, z = 0;
    P3 operator-(const P3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
    P3 operator+(const P3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
    P3 operator*(ld s) const { return {x * s, y * s, z * s}; }
    ld dot(const P3 &o) const { return x * o.x + y * o.y + z * o.z; }
    P3 cross(const P3 &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    ld norm() const { return sqrtl(dot(*this)); } };

typedef std::vector<double> Knots;

// Span used at u: the largest k with U[k] <= u and U[k] < U[k+1], clamped to the valid domain.
inline int span(int n, int p, const Knots &U, ld u) {
    int best = -1;
    for (int k = p; k <= n; ++k) if (U[k] < U[k + 1] && (best < 0 || U[k] <= u)) best = k;
    return best;
}
// d-th derivative of N_{i,q} restricted to the polynomial piece of span k.
inline ld basis(int i, int q, int d, const Knots &U, ld u, int k) {
    if (i > k || i + q < k) return 0;
    if (q == 0) return d == 0 ? (i == k ? 1.0L : 0.0L) : 0.0L;
    ld a = (ld) U[i + q] - (ld) U[i], b = (ld) U[i + q + 1] - (ld) U[i + 1], r = 0;
    if (d > 0) {
        if (a != 0) r += q / a * basis(i, q - 1, d - 1, U, u, k);
        if (b != 0) r -= q / b * basis(i + 1, q - 1, d - 1, U, u, k);
        return r;
    }
    if (a != 0) r += (u - U[i]) / a * basis(i, q - 1, 0, U, u, k);
    if (b != 0) r += (U[i + q + 1] - u) / b * basis(i + 1, q - 1, 0, U, u, k);
    return r;
}
struct Curve { int p = 0; Knots U; std::vector<P4> P; int n() const { return (int) P.size() - 1; }
    ld lo() const { return U[p]; } ld hi() const { return U[P.size()]; } };
inline P4 hom(const Curve &c, ld u, int d = 0) {
    int k = span(c.n(), c.p, c.U, u); P4 r;
    for (int i = k - c.p; i <= k; ++i) { ld b = basis(i, c.p, d, c.U, u, k); r.x += b * c.P[i].x; r.y += b * c.P[i].y; r.z += b * c.P[i].z; r.w += b * c.P[i].w; }
    return r;
}
inline P3 eval(const Curve &c, ld u) { P4 a = hom(c, u); return {a.x / a.w, a.y / a.w, a.z / a.w}; }
inline P3 d1(const Curve &c, ld u) { P4 a = hom(c, u), b = hom(c, u, 1); P3 C{a.x / a.w, a.y / a.w, a.z / a.w};
    return (P3{b.x, b.y, b.z} - C * b.w) * (1 / a.w); }
inline P3 d2(const Curve &c, ld u) { P4 a = hom(c, u), b = hom(c, u, 1), e = hom(c, u, 2); P3 C{a.x / a.w, a.y / a.w, a.z / a.w};
    P3 D = (P3{b.x, b.y, b.z} - C * b.w) * (1 / a.w);
    return (P3{e.x, e.y, e.z} - D * (2 * b.w) - C * e.w) * (1 / a.w); }

// All derivatives 0..count-1 of the rational curve (Leibniz).
inline std::vector<P3> ders(const Curve &c, ld u, int count) {
    std::vector<P4> A; for (int k = 0; k < count; ++k) A.push_back(k <= c.p ? hom(c, u, k) : P4{});
    std::vector<P3> C;
    for (int k = 0; k < count; ++k) { P3 v{A[k].x, A[k].y, A[k].z}; ld b = 1;
        for (int i = 1; i <= k; ++i) { b = b * (k - i + 1) / i; v = v - C[k - i] * (b * A[i].w); }
        C.push_back(v * (1 / A[0].w)); }
    return C;
}

struct Surf { int p = 0, q = 0; Knots U, V; std::vector<std::vector<P4>> P; int nu() const { return (int) P.size() - 1; } int nv() const { return (int) P[0].size() - 1; } };
inline P4 hom(const Surf &s, ld u, ld v, int du = 0, int dv = 0) {
    int k = span(s.nu(), s.p, s.U, u), l = span(s.nv(), s.q, s.V, v); P4 r;
    std::vector<ld> bv(s.q + 1); for (int j = 0; j <= s.q; ++j) bv[j] = basis(l - s.q + j, s.q, dv, s.V, v, l);
    for (int i = k - s.p; i <= k; ++i) { ld b = basis(i, s.p, du, s.U, u, k);
        for (int j = 0; j <= s.q; ++j) { ld f = b * bv[j]; const P4 &c = s.P[i][l - s.q + j]; r.x += f * c.x; r.y += f * c.y; r.z += f * c.z; r.w += f * c.w; } }
    return r;
}
inline P3 eval(const Surf &s, ld u, ld v) { P4 a = hom(s, u, v); return {a.x / a.w, a.y / a.w, a.z / a.w}; }
inline P3 dU(const Surf &s, ld u, ld v) { P4 a = hom(s, u, v), b = hom(s, u, v, 1, 0); P3 C{a.x / a.w, a.y / a.w, a.z / a.w}; return (P3{b.x, b.y, b.z} - C * b.w) * (1 / a.w); }
inline P3 dV(const Surf &s, ld u, ld v) { P4 a = hom(s, u, v), b = hom(s, u, v, 0, 1); P3 C{a.x / a.w, a.y / a.w, a.z / a.w}; return (P3{b.x, b.y, b.z} - C * b.w) * (1 / a.w); }
} // namespace R
