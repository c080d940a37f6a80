// Vector types against componentwise long-double definitions; hashing against equality; batches against scalars.
#include "common.h"
#include <unordered_map>
#include <unordered_set>
#include "cmmcore/utils.h"
#include "cmmcore/numeric_utils.h"
using namespace H; using namespace cmmcore;
static double mag(Rng &g) { int k = g.i(0, 6); double s = g.p(.5) ? 1 : -1; switch (k) { case 0: return g.i(-4, 4); case 1: return s * g.u(); case 2: return s * pow(10, g.uni(-6, 6)); case 3: return s * pow(10, g.uni(-120, 120)); case 4: return s * ldexp(1, g.i(-40, 40)); case 5: return 0 * s; default: return g.gauss(); } }
static ld comps(const vec2 &v, int i) { return v[i]; } static ld comps(const vec3 &v, int i) { return v[i]; } static ld comps(const vec4 &v, int i) { return v[i]; }
template<class V, int N> struct Dim { typedef V T; static constexpr int n = N; };
template<class V> static V make(Rng &g, double scale); 
template<> vec2 make<vec2>(Rng &g, double s) { return vec2(s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g)); }
template<> vec3 make<vec3>(Rng &g, double s) { return vec3(s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g)); }
template<> vec4 make<vec4>(Rng &g, double s) { return vec4(s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g), s ? s * g.gauss() : mag(g)); }
template<class V> static std::string str(const V &v) { std::string r = "("; for (size_t i = 0; i < v.size(); ++i) r += S(i ? "," : "", v[i]); return r + ")"; }
template<class V> static ld ldot(const V &a, const V &b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += comps(a, i) * comps(b, i); return s; }
template<class V> static ld lnorm(const V &a) { return sqrtl(ldot(a, a)); }
static bool rel(ld got, ld want, ld mag, ld tol = 1e-15L) { return (std::isfinite((double) got) && fabsl(got - want) <= tol * mag) || got == want; }
static bool ulps(double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 4.5e-16 * std::fabs(y) || std::fabs(x - y) <= 5e-324 * 4; } // a correctly rounded result, or one computed with one more rounding
template<class V> static void same(Case &c, const V &got, const V &a, const V &b, const char *key, double (*f)(double, double)) { for (size_t i = 0; i < a.size(); ++i) { double w = f(a[i], b[i]); c.check(ulps(got[i], w), key, [&] { return S("component ", i, " of ", str(got), " from ", str(a), " and ", str(b)); }); } }
static double fAdd(double a, double b) { return a + b; } static double fSub(double a, double b) { return a - b; } static double fMul(double a, double b) { return a * b; } static double fDiv(double a, double b) { return a / b; } static double fNeg(double a, double) { return -a; }
template<class V> static void common(Case &c, const V &a, const V &b, double k) {
    same(c, a - b, a, b, "minus", fSub); same(c, a * b, a, b, "times", fMul); same(c, -a, a, a, "negate", fNeg); V kk(k); same(c, a * k, a, kk, "scale", fMul); V t = a; t += b; same(c, t, a, b, "plus-assign", fAdd); t = a; t -= b; same(c, t, a, b, "minus-assign", fSub); t.set(a); same(c, t, a, V(0.), "set", fAdd); for (size_t i = 0; i < a.size(); ++i) c.check(kk[i] == k, "fill-constructor");
    V w = a; for (size_t i = 0; i < w.size(); ++i) { w[i] = i + 10.; for (size_t j = 0; j < w.size(); ++j) c.check(w[j] == (j <= i ? j + 10. : a[j]), "index-write"); } bool threw = false; try { (void) w[w.size()]; } catch (const std::exception &) { threw = true; } c.check(threw, "index-out-of-range-accepted");
    ld m = 0, n2 = ldot(a, a); for (size_t i = 0; i < a.size(); ++i) m += fabsl(comps(a, i) * comps(b, i)); c.check(rel(a.dot(b), ldot(a, b), m), "dot", [&] { return S(a.dot(b), " expected ", (double) ldot(a, b), " for ", str(a), str(b)); });
    c.check(rel(a.sqLength(), n2, n2), "sq-length", [&] { return str(a); }); c.check(rel(a.length(), sqrtl(n2), sqrtl(n2)), "length", [&] { return S(a.length(), " for ", str(a)); }); V d = a - b; c.check(rel(a.distance(b), lnorm(d), lnorm(d)), "distance", [&] { return S(a.distance(b), " for ", str(a), str(b)); }); c.check(rel(a.distanceSq(b), ldot(d, d), ldot(d, d)), "distance-sq"); c.check(ulps(a.distance(b), b.distance(a)), "distance-symmetric");
    c.check(a == a, "equal-to-itself"); bool near = true, far = false; for (size_t i = 0; i < a.size(); ++i) { near = near && a[i] == b[i]; far = far || std::fabs(a[i] - b[i]) > 1e-12; } if (near) c.check(a == b, "equal"); if (far) c.check(!(a == b), "different-reported-equal", [&] { return S(str(a), str(b)); }); c.check((a == b) == (b == a), "equality-symmetric");
    if (lnorm(b) > 0) { V p = a.project(b); ld s = ldot(a, b) / ldot(b, b); for (size_t i = 0; i < a.size(); ++i) c.check(rel(p[i], s * comps(b, i), lnorm(a) + fabsl(s * comps(b, i)), 1e-14L), "project", [&] { return S(str(p), " for ", str(a), " onto ", str(b)); }); }
    std::ostringstream os; os.precision(17); os << a; std::string tx = os.str(); c.check(tx.size() > 2 && tx.front() == '[' && tx.back() == ']', "print"); for (auto &ch : tx) if (ch == '[' || ch == ']' || ch == ',') ch = ' '; std::istringstream is(tx); std::string word; size_t at = 0; bool ok = true; while (is >> word) { ok = ok && at < a.size() && strtod(word.c_str(), nullptr) == a[at]; ++at; } c.check(ok && at == a.size(), "print-components", [&] { return os.str(); });
}
template<class V> static void unitize(Case &c, const V &a, bool throwsOnZero) { ld n = lnorm(a); if (n < 1e-150L && n > 0) return; if (n == 0) { if (throwsOnZero) { bool t1 = false, t2 = false; V w = a; try { (void) a.unit(); } catch (const std::exception &) { t1 = true; } try { w.unitize(); } catch (const std::exception &) { t2 = true; } c.check(t1 && t2, "zero-vector-normalised"); } else { V u = a.unit(); for (size_t i = 0; i < a.size(); ++i) c.check(u[i] == 0, "zero-vector-unit", [&] { return str(u); }); } return; }
    if (n <= 1e-12L || n > 1e150L) return; V u = a.unit(), w = a; w.unitize(); c.check(fabsl(lnorm(u) - 1) <= 1e-15L, "unit-length", [&] { return S(str(a), " -> ", str(u)); }); for (size_t i = 0; i < a.size(); ++i) { c.check(ulps(w[i], u[i]), "unitize-equals-unit"); c.check(fabsl(u[i] - comps(a, i) / n) <= 1e-15L, "unit-direction", [&] { return S(str(a), " -> ", str(u)); }); } V again = u.unit(); c.check(fabsl(lnorm(again) - 1) <= 1e-15L, "unit-idempotent"); }
SUITE(vec2s, 4000, 150000) {
    Rng &g = c.rng; double sc = g.p(.4) ? 0 : g.p(.5) ? 1 : pow(10, g.uni(-12, 12)); vec2 a = make<vec2>(g, sc), b = g.p(.15) ? a : g.p(.15) ? a * g.gauss() : make<vec2>(g, sc); double k = mag(g); c.d << str(a) << str(b) << k; c.nontrivial(hcomb(hd(a.x) ^ hd(b.x), hd(a.y) ^ hd(b.y))); common(c, a, b, k); unitize(c, a, true);
    vec2 t = a; t *= k; vec2 s = a * k; c.check(ulps(t.x, s.x) && ulps(t.y, s.y), "scale-assign"); if (k != 0) { t = a; t /= k; c.check(ulps(t.x, a.x / k) && ulps(t.y, a.y / k), "divide-assign"); } else { bool th = false; try { t /= k; } catch (const std::exception &) { th = true; } c.check(th, "divide-by-zero-accepted"); }
    vec2 ft(a, b); c.check(ft.x == b.x - a.x && ft.y == b.y - a.y, "from-to"); ld cr = (ld) a.x * b.y - (ld) a.y * b.x, m0 = fabsl((ld) a.x * b.x) + fabsl((ld) a.y * b.y); c.check(rel(cross(a, b), cr, fabsl((ld) a.x * b.y) + fabsl((ld) a.y * b.x)), "cross"); c.check(rel(dot(a, b), a.dot(b), m0), "dot-function"); vec2 ar(std::array<double, 2>{k, 3.}); c.check(ar.x == k && ar.y == 3, "array-constructor"); { vec2 q; q.set(k); c.check(q.x == k && q.y == k, "set-fill"); q.set(k, 4.); c.check(q.x == k && q.y == 4, "set-two"); q.set(std::array<double, 2>{5., k}); c.check(q.x == 5 && q.y == k, "set-array"); vec3 flat(a.x, a.y, 0); c.check(flat == a, "equal-to-flat"); if (std::fabs(a.x - b.x) > 1e-12 || std::fabs(a.y - b.y) > 1e-12) c.check(!(flat == b), "different-from-flat"); } if (lnorm(b) > 1e-100L && lnorm(b) < 1e100L) c.check(rel(a.projection(b), ldot(a, b) / ldot(b, b), lnorm(a) / lnorm(b), 4e-15L), "projection");
    if (lnorm(a) > 1e-10L && lnorm(b) > 1e-10L && lnorm(a) < 1e100L && lnorm(b) < 1e100L) { ld sine = fabsl(cr) / (lnorm(a) * lnorm(b)); bool col = a.collinear(b); if (sine < 1e-17L) c.check(col, "collinear-missed", [&] { return S(str(a), str(b)); }); if (sine > 1e-6L) c.check(!col, "not-collinear", [&] { return S(str(a), str(b)); }); vec2 m = a * (double) g.i(-9, 9); if (lnorm(m) > 0) c.check(a.collinear(m), "multiple-not-collinear", [&] { return S(str(a), str(m)); }); }
}
SUITE(vec3s, 5000, 200000) {
    Rng &g = c.rng; double sc = g.p(.4) ? 0 : g.p(.5) ? 1 : pow(10, g.uni(-12, 12)); vec3 a = make<vec3>(g, sc), b = g.p(.15) ? a : g.p(.15) ? a * g.gauss() : make<vec3>(g, sc); double k = mag(g); c.d << str(a) << str(b) << k; c.nontrivial(hcomb(hcomb(hd(a.x), hd(b.x)), hcomb(hd(a.y) ^ hd(b.y), hd(a.z)))); common(c, a, b, k); unitize(c, a, false);
    same(c, a + b, a, b, "plus", fAdd); vec3 r; a.add(b, r); same(c, r, a, b, "add", fAdd); a.sub(b, r); same(c, r, a, b, "sub", fSub); same(c, a / b, a, b, "divide", fDiv); same(c, a / k, a, vec3(k), "divide-scalar", fDiv); same(c, k * a, vec3(k), a, "scale-left", fMul); r = a; r *= k; same(c, r, a, vec3(k), "scale-assign", fMul); r = a; r /= k; same(c, r, a, vec3(k), "divide-assign", fDiv); vec3 al = a; al.add(b, al); same(c, al, a, b, "add-in-place", fAdd); al = a; al -= al; c.check(al.x == 0 || std::isnan(al.x), "subtract-itself");
    vec3 x = a.cross(b), y; a.cross(b, y); for (int i = 0; i < 3; ++i) { int p = (i + 1) % 3, q = (i + 2) % 3; ld w = (ld) a[p] * b[q] - (ld) a[q] * b[p], m = fabsl((ld) a[p] * b[q]) + fabsl((ld) a[q] * b[p]); c.check(rel(y[i], w, m) || std::isnan(x[i]), "cross-forms"); c.check(rel(x[i], w, m), "cross", [&] { return S(str(x), " for ", str(a), str(b)); }); } vec4 h; cross(a, b, h); { vec3 hh(h.x, h.y, h.z); bool hk = h.w == 1; for (int i = 0; i < 3; ++i) { int p = (i + 1) % 3, q = (i + 2) % 3; hk = hk && rel(hh[i], x[i], 2 * (fabsl((ld) a[p] * b[q]) + fabsl((ld) a[q] * b[p]))); } c.check(hk || std::isnan(x.x + x.y + x.z), "cross-homogeneous"); }; vec3 rx = b.cross(a); bool anti = true; for (int i = 0; i < 3; ++i) { int p = (i + 1) % 3, q = (i + 2) % 3; anti = anti && rel(rx[i], -x[i], 2 * (fabsl((ld) a[p] * b[q]) + fabsl((ld) a[q] * b[p]))); } c.check(anti || std::isnan(x.x + x.y + x.z), "cross-antisymmetric");
    ld m0 = 0; for (int i = 0; i < 3; ++i) m0 += fabsl((ld) a[i] * b[i]); c.check(rel(dot(a, b), a.dot(b), m0) && rel(a.dot(b.x, b.y, b.z), a.dot(b), m0), "dot-function"); c.check(rel(dist(a, b), a.distance(b), a.distance(b)) && rel(dist2(a, b), a.distanceSq(b), a.distanceSq(b)), "dist-function"); c.check(rel(mag2(a), ldot(a, a), ldot(a, a)), "mag2"); double p0, p1, p2; assign(a, p0, p1, p2); c.check(p0 == a.x && p1 == a.y && p2 == a.z, "assign"); std::array<double, 3> arr{a.x, a.y, a.z}; c.check(vec3(arr) == a, "array-constructor"); vec3 st; st.set(arr); c.check(st.x == a.x && st.y == a.y && st.z == a.z, "set-array"); st.set(1, k, 3); c.check(st.x == 1 && st.y == k && st.z == 3, "set-three"); vec3 nn = a, uu = a.unit(); nn.normalize(); c.check(ulps(nn.x, uu.x) && ulps(nn.y, uu.y) && ulps(nn.z, uu.z), "normalize");
    ld na = lnorm(a), nb = lnorm(b); if (na > 1e-10L && nb > 1e-10L && na < 1e100L && nb < 1e100L) { auto pj = vectorProjection(a, b); ld s = ldot(a, b) / ldot(b, b); for (int i = 0; i < 3; ++i) c.check(rel(pj[i], s * b[i], na, 2e-14L), "vector-projection", [&] { return S(str(pj), " for ", str(a), " onto ", str(b)); });
        ld cx = (ld) a.y * b.z - (ld) a.z * b.y, cy = (ld) a.z * b.x - (ld) a.x * b.z, cz = (ld) a.x * b.y - (ld) a.y * b.x, sine = sqrtl(cx * cx + cy * cy + cz * cz) / (na * nb); bool col = a.collinear(b); if (sine < 1e-17L) c.check(col, "collinear-missed", [&] { return S(str(a), str(b)); }); if (sine > 1e-6L) c.check(!col, "not-collinear", [&] { return S(str(a), str(b)); }); vec3 m = a * (double) g.i(-9, 9); if (lnorm(m) > 0) c.check(a.collinear(m), "multiple-not-collinear", [&] { return S(str(a), str(m)); });
        vec3 sp, bk; cartesian_to_spherical(a, sp); spherical_to_cartesian(sp, bk); c.check(rel(sp.x, na, na) && sp.y >= 0 && sp.y <= M_PI && sp.z >= -M_PI && sp.z <= M_PI, "spherical-range", [&] { return str(sp); }); for (int i = 0; i < 3; ++i) c.check(fabsl(bk[i] - a[i]) <= 4e-15L * na, "spherical-round-trip", [&] { return S(str(a), " -> ", str(sp), " -> ", str(bk)); }); vec2 tp; cartesian_to_spherical(a, tp); c.check(std::fabs(tp.x - sp.y) <= 1e-15 && std::fabs(tp.y - sp.z) <= 1e-15, "spherical-angles"); spherical_to_cartesian(tp, bk); c.check(fabsl(lnorm(bk) - 1) <= 2e-15L && fabsl(bk.x - a.x / na) + fabsl(bk.y - a.y / na) + fabsl(bk.z - a.z / na) <= 2e-14L, "spherical-unit"); std::vector<vec3> l{a, b}; std::vector<vec2> o(g.i(0, 4)); cartesian_to_spherical(l, o); c.check(o.size() == 2 && std::fabs(o[0].x - tp.x) <= 1e-15 && std::fabs(o[0].y - tp.y) <= 1e-15, "spherical-batch"); }
}
SUITE(vec4s, 3000, 100000) {
    Rng &g = c.rng; double sc = g.p(.4) ? 0 : g.p(.5) ? 1 : pow(10, g.uni(-12, 12)); vec4 a = make<vec4>(g, sc), b = g.p(.15) ? a : make<vec4>(g, sc); double k = mag(g); c.d << str(a) << str(b) << k; c.nontrivial(hcomb(hcomb(hd(a.x), hd(b.x)), hcomb(hd(a.y) ^ hd(b.w), hd(a.z)))); common(c, a, b, k);
    same(c, a + b, a, b, "plus", fAdd); vec4 r; a.add(b, r); same(c, r, a, b, "add", fAdd); a.sub(b, r); same(c, r, a, b, "sub", fSub); same(c, a / b, a, b, "divide", fDiv); same(c, a / k, a, vec4(k), "divide-scalar", fDiv); vec3 p(mag(g), mag(g), mag(g)); r.set(p); c.check(r.x == p.x && r.y == p.y && r.z == p.z && r.w == 1, "set-point"); r.set(std::array<double, 4>{1., k, 3., 4.}); c.check(r.x == 1 && r.y == k && r.z == 3 && r.w == 4, "set-array"); r.set(4, k, 2, 1); c.check(r.x == 4 && r.y == k && r.z == 2 && r.w == 1, "set-four"); vec4 ar(std::array<double, 4>{k, 2., 3., 5.}); c.check(ar.x == k && ar.y == 2 && ar.z == 3 && ar.w == 5, "array-constructor"); vec4 q(a); c.check(q.x == a.x && q.y == a.y && q.z == a.z && q.w == a.w, "copy");
    if (a.w != 0) { vec3 e = a.to_vec3(), f; vec3 &ret = a.to_vec3(f); c.check(&ret == &f, "to-vec3-result"); for (int i = 0; i < 3; ++i) c.check(ulps(e[i], a[i] / a.w) && ulps(f[i], e[i]), "to-vec3"); }
    vec4 u(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3), 1), v(g.uni(-3, 3), g.uni(-3, 3), g.uni(-3, 3), 1); vec3 w = u.to_vec3().cross(v.to_vec3()); vec4 z = u.cross(v), y; u.cross(v, y); vec3 o1 = u.cross(v.to_vec3()), o2; u.cross(v.to_vec3(), o2); for (int i = 0; i < 3; ++i) for (double q : {z[i], y[i], o1[i], o2[i]}) c.check(std::fabs(q - w[i]) <= 1e-14, "cross"); c.check(z.w == 1 && y.w == 1, "cross-weight"); { vec4 uu = u * g.uni(.4, 2.5), vv = v * g.uni(.4, 2.5), yy; uu.cross(vv, yy); vec3 p1 = uu.cross(v.to_vec3()), p2; uu.cross(v.to_vec3(), p2); for (int i = 0; i < 3; ++i) for (double q : {yy[i], p1[i], p2[i]}) c.check(std::fabs(q - w[i]) <= 1e-13, "cross-weighted"); c.check(yy.w == 1, "cross-weight"); }
}
SUITE(batch, 1500, 40000) {
    Rng &g = c.rng; int n = g.p(.1) ? 0 : g.i(1, 40); std::unique_ptr<double[]> x(new double[n]), y(new double[n]), z(new double[n]), out(new double[n]); for (int i = 0; i < n; ++i) { x[i] = g.gauss(); y[i] = mag(g); z[i] = g.uni(-9, 9); out[i] = -7; c.nontrivial(hd(x[i])); } Vectors3 vs{(size_t) n, x.get(), y.get(), z.get()}; vec3 v(g.gauss(), g.gauss(), g.gauss()); c.d << n << " " << str(v); dot_product(v, vs, out.get()); for (int i = 0; i < n; ++i) c.check(rel(out[i], v.dot(vec3(x[i], y[i], z[i])), 2 * (fabsl(v.x * x[i]) + fabsl(v.y * y[i]) + fabsl(v.z * z[i]))), "dot-product", [&] { return S("element ", i, " of ", n); });
    int rows = g.i(1, 7), cols = g.i(1, 7); std::vector<std::vector<double>> m(rows, std::vector<double>(cols)); for (auto &r : m) for (auto &e : r) e = g.gauss(); std::vector<double> col(g.i(0, 9)); int k = g.i(0, cols - 1); vectorColumn(m, k, col); bool ok = (int) col.size() == rows; for (int i = 0; ok && i < rows; ++i) ok = col[i] == m[i][k]; c.check(ok, "column", [&] { return S(rows, "x", cols, " column ", k, " size ", col.size()); }); bool th = false; try { vectorColumn(m, cols, col); } catch (const std::exception &) { th = true; } c.check(th, "column-out-of-range-accepted");
    vec3 o(g.gauss(), g.gauss(), g.p(.2) ? 0 : g.uni(1, 5)), p(g.gauss(), g.gauss(), g.p(.2) ? o.z : o.z - g.uni(.2, 4)); vec2 pr; centerProjectionToXY(o, p, pr); if (o.z == p.z) c.check(pr.x == p.x && pr.y == p.y, "central-projection-level"); else { ld t = (ld) o.z / ((ld) o.z - p.z), ex = o.x + t * ((ld) p.x - o.x), ey = o.y + t * ((ld) p.y - o.y); ld m2 = (1 + fabsl(t)) * 8; c.check(fabsl(pr.x - ex) <= 1e-14L * m2 && fabsl(pr.y - ey) <= 1e-14L * m2, "central-projection", [&] { return S(str(pr), " expected ", (double) ex, ",", (double) ey); }); }
    double lo = g.uni(-9, 9), hi = lo + g.uni(.001, 9); std::vector<vec3> rv(g.i(0, 5)); random_vectors3(lo, hi, n, rv); bool in = (int) rv.size() == n; for (auto &q : rv) for (int i = 0; i < 3; ++i) in = in && q[i] >= lo && q[i] <= hi; if (n > 3) { bool vary = false; for (auto &q : rv) vary = vary || q.x != rv[0].x || q.y != q.x; in = in && vary; } c.check(in, "random-vectors");
    for (int i = 0; i < 10; ++i) { double v = mag(g), e = calc_epsilon(v); c.check(e > 0 || (v == 0 && e >= 0), "calc-epsilon"); }
}
// Equality of the hashed containers: an equivalence that the hash respects, coarser than bitwise equality only by a few 1e-15 units
SUITE(hashing, 2500, 80000) {
    Rng &g = c.rng; std::vector<vec3> pool; int n = g.i(2, 10); double sc = g.p(.7) ? 1 : pow(10, g.uni(-3, 3)); for (int i = 0; i < n; ++i) { vec3 v(g.p(.3) ? g.i(-2, 2) : g.uni(-3, 3), g.p(.3) ? -0. : g.uni(-3, 3), g.p(.3) ? 0. : g.i(-1, 1)); v = v * sc; pool.push_back(v); if (g.p(.5)) { vec3 w = v; double d = pow(10, -g.i(13, 18)); w[g.i(0, 2)] += g.p(.5) ? d : -d; pool.push_back(w); } if (g.p(.3)) pool.push_back(vec3(v.x == 0 ? -v.x : v.x, v.y == 0 ? -v.y : v.y, v.z == 0 ? -v.z : v.z)); c.nontrivial(hd(v.x) ^ hd(v.y)); c.d << str(v); }
    Vec3Hash h; Vec3Equal e; Vec2Hash h2; Vec2Equal e2; for (auto &a : pool) for (auto &b : pool) { bool eq = e(a, b); bool bits = a.x == b.x && a.y == b.y && a.z == b.z; ld d = std::max({fabsl((ld) a.x - b.x), fabsl((ld) a.y - b.y), fabsl((ld) a.z - b.z)}); c.check(eq == e(b, a), "equal-symmetric"); if (bits) c.check(eq, "equal-reflexive"); if (eq) { c.check(h(a) == h(b), "hash-differs", [&] { return S(str(a), str(b)); }); c.check(d <= 1.01e-15L * std::max(1., sc * 4), "equal-too-coarse", [&] { return S(str(a), str(b)); }); } else c.check(!bits, "equal-misses"); for (auto &t : pool) if (eq && e(b, t)) c.check(e(a, t), "equal-transitive");
        vec2 p(a.x, a.y), q(b.x, b.y); if (e2(p, q)) c.check(h2(p) == h2(q), "hash2-differs"); if (p.x == q.x && p.y == q.y) c.check(e2(p, q), "equal2"); if (std::fabs(p.x - q.x) > 2e-15 * std::max(1., sc * 4)) c.check(!e2(p, q), "equal2-too-coarse"); std::pair<double, double> u(a.x, a.y), w(b.x, b.y); if (PairDoubleEqual_t()(u, w)) c.check(PairDoubleHash_t()(u) == PairDoubleHash_t()(w), "pair-hash-differs"); c.check(PairDoubleEqual_t()(u, w) == (a.x == b.x && a.y == b.y), "pair-equal"); }
    for (int i = 0; i < 20; ++i) { /* rounding errors next to a multiple of the quantum do not matter */ vec3 a(ldexp(g.i(-3, 3), -g.i(0, 3)), g.i(-2, 2), 0), b = a; for (int j = 0; j < 3; ++j) if (a[j] == 0) b[j] = (g.p(.5) ? 1 : -1) * pow(10, -g.uni(16, 25)); c.check(e(a, b) && h(a) == h(b), "equal-misses-noise", [&] { return S(str(a), str(b)); }); c.check(e2(vec2(a.x, a.y), vec2(b.x, b.y)), "equal2-misses-noise"); }
    Vec3UnorderedMap m; std::vector<std::pair<vec3, int>> model; for (int s = 0; s < 40; ++s) { vec3 k = g.pick(pool); int f = -1; for (size_t i = 0; i < model.size(); ++i) if (e(model[i].first, k)) f = (int) i; auto it = m.find(k); c.check((it != m.end()) == (f >= 0) && (f < 0 || it->second == model[f].second), "map-lookup", [&] { return str(k); }); if (g.p(.2)) { m.erase(k); if (f >= 0) model.erase(model.begin() + f); } else { m[k] = s; if (f >= 0) model[f].second = s; else model.push_back({k, s}); } } c.check(m.size() == model.size(), "map-size");
}
HARNESS_MAIN
