// Seeded generators of NURBS curves/surfaces and point sets, and conversions to the reference model.
#pragma once
#include "common.h"
#include "ref.h"
#include "cmmcore/nurbs.h"

namespace G {
using namespace H;
using cmmcore::vec2; using cmmcore::vec3; using cmmcore::vec4; using cmmcore::NURBSCurve; using cmmcore::NURBSSurface; using cmmcore::SurfaceParameter;

inline R::P3 p3(const vec3 &v) { return {v.x, v.y, v.z}; }
inline R::P4 p4(const vec4 &v) { return {v.x, v.y, v.z, v.w}; }
inline bool finite(const vec3 &v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline ld gap(const vec3 &a, const R::P3 &b) { return (p3(a) - b).norm(); }
inline ld gap(const vec3 &a, const vec3 &b) { return (p3(a) - p3(b)).norm(); }
inline std::string str(const vec3 &v) { return S("(", v.x, ",", v.y, ",", v.z, ")"); }
inline std::string str(const R::P3 &v) { return S("(", (double) v.x, ",", (double) v.y, ",", (double) v.z, ")"); }

// Clamped knot vector. kind 0 uniform integer, 1 random strictly increasing, 2 with multiplicities (<= maxMult), 3 uniform on another domain.
inline std::vector<double> knots(Rng &g, int n, int p, int kind, int maxMult) {
    std::vector<double> U(n + p + 1);
    int inner = n - p - 1;
    double a = 0, b = inner + 1;
    if (kind == 1 || kind == 2 || kind == 3) { if (g.p(0.5)) { a = g.uni(-3, 3); b = a + g.uni(0.5, 6); } else if (g.p(0.5)) { a = 0; b = 1; } }
    for (int i = 0; i <= p; ++i) { U[i] = a; U[n + i] = b; }
    if (inner > 0) {
        if (kind == 0 || kind == 3) for (int i = 1; i <= inner; ++i) U[p + i] = a + (b - a) * i / (inner + 1);
        else {
            std::vector<double> w; double s = 0; std::vector<int> mult; int left = inner;
            while (left > 0) { int m = kind == 2 ? g.i(1, std::min(left, maxMult)) : 1; mult.push_back(m); left -= m; }
            w.resize(mult.size() + 1); for (auto &x : w) { x = g.uni(0.25, 1); s += x; }
            double t = a; int at = p + 1;
            for (size_t i = 0; i < mult.size(); ++i) { t += w[i] / s * (b - a); for (int k = 0; k < mult[i]; ++k) U[at++] = t; }
        }
    }
    return U;
}
// Remaps a clamped knot vector to a very short, very long or far-away domain, and/or moves some knots very close to a
// neighbour. Multiplicities stay; distinct knots stay more than 1e-11 apart (1e-12 is the library's identity of knots).
inline void wildKnots(Rng &g, std::vector<double> &U, double minLen = 1e-8) {
    int what = g.i(0, 2);
    if (what != 1) {
        double L = U.back() - U.front(), nl = g.p(.5) ? std::pow(10.0, g.uni(std::log10(minLen), 0)) : std::pow(10.0, g.uni(0, 6)), off = nl < 1e-3 ? (g.p(.5) ? 0 : U.front()) : g.p(.5) ? 0 : g.uni(-1, 1) * (g.p(.5) ? nl : 10 * nl);
        if (nl < 1e-3 && std::fabs(off) > 1e-3) off *= 1e-3;
        double a = U.front(); for (auto &x : U) x = off + (x - a) / L * nl;
    }
    double L = U.back() - U.front();
    if (what >= 1 && L >= 1e-3) {
        std::vector<double> d; for (double x : U) if (d.empty() || x != d.back()) d.push_back(x);
        std::vector<double> e = d; double least = std::max(2e-11, 64 * 2.3e-16 * std::max(std::fabs(U.front()), std::fabs(U.back())));
        for (size_t i = 1; i + 1 < d.size(); ++i) if (g.p(.5)) { double gap = L * std::pow(10.0, g.uni(-9, -2)); if (gap < least) gap = least; double x = g.p(.5) ? e[i - 1] + gap : d[i + 1] - gap; if (x > e[i - 1] + least / 2 && x < d[i + 1] - least / 2) e[i] = x; }
        for (auto &x : U) x = e[std::lower_bound(d.begin(), d.end(), x) - d.begin()];
    }
}
// Spreads the repeated knots of the ends outwards: an unclamped curve, valid on [U[p], U[n+1]].
inline void unclamp(Rng &g, std::vector<double> &U, int p) {
    int n1 = (int) U.size() - p - 1; double L = U[n1] - U[p]; bool lo = g.p(.8), hi = !lo || g.p(.7), wrap = g.p(.3); std::vector<double> d(U.begin() + p, U.begin() + n1 + 1); // wrap: knots repeat periodically
    for (int i = 1; i <= p; ++i) {
        if (lo) U[p - i] = wrap && i < (int) d.size() ? U[p] - (U[n1] - d[d.size() - 1 - i]) : U[p - i + 1] - (g.p(.15) ? 0 : L * g.uni(.05, .5));
        if (hi) U[n1 + i] = wrap && i < (int) d.size() ? U[n1] + (d[i] - d[0]) : U[n1 + i - 1] + (g.p(.15) ? 0 : L * g.uni(.05, .5)); }
    for (int i = p; i > 0; --i) if (U[i - 1] > U[i]) U[i - 1] = U[i]; for (size_t i = n1; i + 1 < U.size(); ++i) if (U[i + 1] < U[i]) U[i + 1] = U[i];
}
enum Shape { BOX, GRIDC, PLANAR, LINEAR, SMALL, LARGE, CLOSED, NSHAPES };
inline vec3 point(Rng &g, int shape, int i, int n) {
    switch (shape) {
        case GRIDC: return vec3(g.i(-5, 5), g.i(-5, 5), g.i(-5, 5));
        case PLANAR: return vec3(g.uni(-5, 5), g.uni(-5, 5), 0);
        case LINEAR: return vec3(i * 1.5 + g.uni(-.5, .5), 2 * i * 1.5, -i * 1.5);
        case SMALL: return vec3(g.uni(-.02, .02), g.uni(-.02, .02), g.uni(-.02, .02));
        case LARGE: return vec3(g.uni(900, 1100), g.uni(-1e3, 1e3), g.uni(-10, 10));
        case CLOSED: { double t = 6.283185307179586 * i / std::max(1, n - 1); return vec3(4 * cos(t) + g.uni(-.2, .2), 4 * sin(t), g.uni(-1, 1)); }
        default: return vec3(g.uni(-10, 10), g.uni(-10, 10), g.uni(-10, 10));
    }
}
struct CurveOpt { double high = .06; /* chance of a degree of 5-8 */ int minDeg = 1, maxDeg = 5, maxExtra = 7; int rational = 2; /*0 no 1 yes 2 either*/ int maxMultMinus = 0; /* interior multiplicity <= degree-this */ int shape = -1; int knotKind = -1; double wild = 0; /* probability of extreme knot spacing */ double minLen = 1e-8; double open = 0; /* probability of an unclamped knot vector */ };
inline NURBSCurve curve(Rng &g, const CurveOpt &o = {}) {
    int p = g.i(o.minDeg, o.maxDeg); if (o.high > 0 && o.minDeg < o.maxDeg && g.p(o.high)) p = std::max(o.minDeg, g.i(5, 8)); int n = p + 1 + g.i(0, o.maxExtra);
    int shape = o.shape >= 0 ? o.shape : g.i(0, NSHAPES - 1);
    bool rat = o.rational == 1 || (o.rational == 2 && g.p(0.5));
    std::vector<vec4> cp(n);
    for (int i = 0; i < n; ++i) { vec3 q = point(g, shape, i, n); double w = rat ? (g.p(0.2) ? 1.0 : g.uni(0.25, 4)) : 1; cp[i] = vec4(q.x * w, q.y * w, q.z * w, w); }
    int kk = o.knotKind >= 0 ? o.knotKind : g.i(0, 3);
    auto U = knots(g, n, p, kk, std::max(1, p - o.maxMultMinus)); if (o.wild > 0 && g.p(o.wild)) wildKnots(g, U, o.minLen); if (o.open > 0 && g.p(o.open)) unclamp(g, U, p);
    return NURBSCurve(cp, p, U, false);
}
struct SurfOpt { double high = .06; /* chance of a degree of 5-8 */ int minDeg = 1, maxDeg = 4, maxExtra = 4; int rational = 2; int maxMultMinus = 0; int shape = -1; int knotKind = -1; double wild = 0; double minLen = 1e-8; double open = 0; };
inline NURBSSurface surface(Rng &g, const SurfOpt &o = {}) {
    int p = g.i(o.minDeg, o.maxDeg), q = g.i(o.minDeg, o.maxDeg); if (o.high > 0 && o.minDeg < o.maxDeg && g.p(o.high)) { (g.p(.5) ? p : q) = g.i(5, 8); if (g.p(.3)) p = q = g.i(5, 8); } int n = p + 1 + g.i(0, o.maxExtra), m = q + 1 + g.i(0, o.maxExtra);
    bool rat = o.rational == 1 || (o.rational == 2 && g.p(0.5));
    int shape = o.shape >= 0 ? o.shape : g.i(0, 4);
    std::vector<std::vector<vec4>> cp(n, std::vector<vec4>(m));
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
        vec3 c;
        switch (shape) {
            case 0: c = vec3(g.uni(-10, 10), g.uni(-10, 10), g.uni(-10, 10)); break;                     // scattered
            case 1: c = vec3(i * 2.0 + g.uni(-.4, .4), j * 2.0 + g.uni(-.4, .4), g.uni(-2, 2)); break;     // height-field like
            case 2: c = vec3(i, j, 0); break;                                                            // planar
            case 3: c = vec3(g.i(-4, 4), g.i(-4, 4), g.i(-4, 4)); break;
            default: c = vec3(100 + i * .01 + g.uni(-.002, .002), -50 + j * .01, g.uni(-.01, .01)); break;     // small, offset
        }
        double w = rat ? g.uni(0.25, 4) : 1; cp[i][j] = vec4(c.x * w, c.y * w, c.z * w, w);
    }
    int ku = o.knotKind >= 0 ? o.knotKind : g.i(0, 3), kv = o.knotKind >= 0 ? o.knotKind : g.i(0, 3);
    auto U = knots(g, n, p, ku, std::max(1, p - o.maxMultMinus)); auto V = knots(g, m, q, kv, std::max(1, q - o.maxMultMinus));
    if (o.wild > 0 && g.p(o.wild)) { if (g.p(.7)) wildKnots(g, U, o.minLen); if (g.p(.7)) wildKnots(g, V, o.minLen); }
    if (o.open > 0 && g.p(o.open)) { bool a = g.p(.7); if (a) unclamp(g, U, p); if (!a || g.p(.5)) unclamp(g, V, q); }
    return NURBSSurface(cp, {p, q}, U, V);
}
inline R::Curve toRef(const NURBSCurve &c) { R::Curve r; r.p = c._degree; r.U = c.knots; for (auto &v : c.control_points) r.P.push_back(p4(v)); return r; }
inline R::Surf toRef(const NURBSSurface &s) { R::Surf r; r.p = s._degree[0]; r.q = s._degree[1]; r.U = s._knots_u; r.V = s._knots_v;
    for (auto &row : s._control_points) { r.P.emplace_back(); for (auto &v : row) r.P.back().push_back(p4(v)); } return r; }
inline ld scaleOf(const R::Curve &c) { ld m = 1e-3L; for (auto &v : c.P) m = std::max(m, std::max({fabsl(v.x / v.w), fabsl(v.y / v.w), fabsl(v.z / v.w)})); return m; }
inline ld scaleOf(const R::Surf &s) { ld m = 1e-3L; for (auto &r : s.P) for (auto &v : r) m = std::max(m, std::max({fabsl(v.x / v.w), fabsl(v.y / v.w), fabsl(v.z / v.w)})); return m; }
// Where a surface is defined: between the knots [degree] and [number of points] of each direction.
inline std::array<std::array<double, 2>, 2> valid(const NURBSSurface &s) { return {{{s._knots_u[s._degree[0]], s._knots_u[s._size[0]]}, {s._knots_v[s._degree[1]], s._knots_v[s._size[1]]}}}; }
inline void describe(Case &c, const NURBSCurve &k) {
    c.d << "curve deg=" << k._degree << " knots=["; for (double u : k.knots) c.d << u << ","; c.d << "] cps=[";
    for (auto &v : k.control_points) c.d << "(" << v.x << "," << v.y << "," << v.z << "," << v.w << ")"; c.d << "] ";
}
inline void describe(Case &c, const NURBSSurface &k) {
    c.d << "surface deg=" << k._degree[0] << "," << k._degree[1] << " U=["; for (double u : k._knots_u) c.d << u << ","; c.d << "] V=["; for (double u : k._knots_v) c.d << u << ",";
    c.d << "] cps=["; for (auto &r : k._control_points) { c.d << "["; for (auto &v : r) c.d << "(" << v.x << "," << v.y << "," << v.z << "," << v.w << ")"; c.d << "]"; } c.d << "] ";
}
inline uint64_t fp(const NURBSCurve &k) { uint64_t h = k._degree; for (auto &v : k.control_points) h = hcomb(hcomb(hcomb(h, hd(v.x)), hd(v.y)), hd(v.w)); for (double u : k.knots) h = hcomb(h, hd(u)); return h; }
inline uint64_t fp(const NURBSSurface &k) { uint64_t h = k._degree[0] * 31 + k._degree[1]; for (auto &r : k._control_points) for (auto &v : r) h = hcomb(hcomb(h, hd(v.x)), hd(v.w)); for (double u : k._knots_u) h = hcomb(h, hd(u)); return h; }
// Parameters worth sampling: domain ends, every distinct knot, neighbours of knots, random interior points.
inline std::vector<double> params(Rng &g, const std::vector<double> &U, int p, int n, int extra) {
    std::vector<double> r; double lo = U[p], hi = U[n + 1]; r.push_back(lo); r.push_back(hi);
    for (int i = p; i <= n + 1; ++i) if (U[i] > lo && U[i] < hi) { r.push_back(U[i]); if (g.p(.3)) r.push_back(std::nextafter(U[i], lo)); if (g.p(.3)) r.push_back(std::nextafter(U[i], hi)); }
    for (int i = 0; i < extra; ++i) r.push_back(g.uni(lo, hi));
    return r;
}
inline int mult(const std::vector<double> &U, double t) { int m = 0; for (double u : U) if (std::fabs(u - t) <= 1e-12) ++m; return m; }
inline double snapped(const std::vector<double> &U, double t) { for (double u : U) if (std::fabs(u - t) <= 1e-12) return u; return t; }
// Random interior parameter: sometimes an existing knot, midpoint, or near the ends.
inline double interior(Rng &g, const std::vector<double> &U, int p, int n, double edge = 1e-3) {
    double lo = U[p], hi = U[n + 1], L = hi - lo;
    if (g.p(.25)) { std::vector<double> in; for (int i = p + 1; i <= n; ++i) if (U[i] > lo + edge * L && U[i] < hi - edge * L) in.push_back(U[i]); if (!in.empty()) return g.pick(in); }
    if (g.p(.15)) return snapped(U, lo + .5 * L); // a rounding error off a knot is a case of its own, see jitter
    return lo + L * g.uni(edge, 1 - edge);
}
// moves a parameter that is a knot off it by a rounding error, sometimes
inline double jitter(Rng &g, const std::vector<double> &U, double t) { if (mult(U, t) && std::fabs(t) < 4000 && g.p(.3)) return g.p(.5) ? std::nextafter(t, t + 1) : std::nextafter(t, t - 1); return t; }
inline bool nearKnot(const std::vector<double> &U, double t, double tol) { for (double u : U) { double d = std::fabs(u - t); if (d > 1e-12 && d < tol) return true; } return false; }
} // namespace G
