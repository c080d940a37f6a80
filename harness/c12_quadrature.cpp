// Adaptive Simpson and the Newton inverse against closed forms.
#include "common.h"
#include "cmmcore/integrate.h"
using namespace H;
struct Fn { std::function<double(double)> f; std::function<ld(ld)> F; std::string name; ld scale; double period; };
static Fn pickFn(Rng &g) {
    switch (g.i(0, 5)) {
        case 0: { std::vector<double> a; int d = g.i(0, 7); for (int i = 0; i <= d; ++i) a.push_back(g.uni(-2, 2)); return {[a](double x) { double r = 0; for (int i = (int) a.size(); i-- > 0;) r = r * x + a[i]; return r; }, [a](ld x) { ld r = 0; for (int i = (int) a.size(); i-- > 0;) r = r * x + a[i] / (ld) (i + 1); return r * x; }, "poly" + std::to_string(d), 1, 0}; }
        case 1: { double w = g.uni(.2, 3), p = g.uni(0, 6); return {[=](double x) { return std::sin(w * x + p); }, [=](ld x) { return -cosl((ld) w * x + p) / w; }, "sin", 1, 6.2831 / w}; }
        case 2: { double w = g.uni(-1, 1); if (std::fabs(w) < .05) w = .5; return {[=](double x) { return std::exp(w * x); }, [=](ld x) { return expl((ld) w * x) / w; }, "exp", 1, 0}; }
        case 3: { double s = g.uni(.3, 2); return {[=](double x) { return 1 / (1 + s * s * x * x); }, [=](ld x) { return atanl((ld) s * x) / s; }, "runge", 1, 0}; }
        case 4: { double s = g.uni(.5, 2); return {[=](double x) { return std::sqrt(s + x * x); }, [=](ld x) { return .5L * (x * sqrtl(s + x * x) + s * asinhl(x / sqrtl((ld) s))); }, "sqrt", 1, 0}; }
        default: { double w = g.uni(.5, 2); return {[=](double x) { return x * std::cos(w * x); }, [=](ld x) { return x * sinl(w * x) / w + cosl(w * x) / ((ld) w * w); }, "xcos", 1, 6.2831 / w}; }
    }
}
// Richardson's estimate can vanish by accident on single panels, so a small share of the runs of one
// integrand may exceed a modest multiple of the tolerance; every run stays under a coarse hard bound.
SUITE(accuracy, 600, 15000) {
    Rng &g = c.rng; auto f = pickFn(g); c.d << f.name; int bad = 0, badAdd = 0; std::string worst; const int N = 24;
    for (int it = 0; it < N; ++it) {
        double a = g.uni(-3, 3), b = g.uni(-3, 3), tol = pow(10, -g.i(4, 11)), r = 7, e = -7; c.nontrivial(hcomb(hd(a), hd(b)));
        long calls = 0; cmmcore::integrate([&](double x) { ++calls; return f.f(x); }, a, b, r, e, tol); ld ex = f.F(b) - f.F(a);
        ld bound = 20 * tol + 1e-12L * (1 + fabsl(ex)), err = fabsl(r - ex);
        if (!(err <= bound)) { ++bad; worst = S(f.name, " [", a, ",", b, "] result ", r, " exact ", (double) ex, " tol ", tol); }
        c.check(std::isfinite(r) && err <= bound + 2e-4L * powl(fabsl((ld) b - a), 5) * (f.name[0] == 'p' ? 8 : f.name[0] == 'r' ? 45 : 1), "accuracy-hard", [&] { return S(f.name, " [", a, ",", b, "] result ", r, " exact ", (double) ex, " tol ", tol); });
        c.check(e >= 0 && std::isfinite(e), "error-estimate", [&] { return S(e); });
        double r2 = 0, e2 = 0; cmmcore::integrate(f.f, b, a, r2, e2, tol); c.check(fabsl((ld) r + r2) <= 2 * bound, "reversal", [&] { return S(r, " ", r2); });
        double m = g.uni(std::min(a, b), std::max(a, b)), r3, r4, e3; cmmcore::integrate(f.f, a, m, r3, e3, tol); cmmcore::integrate(f.f, m, b, r4, e3, tol); if (!(fabsl((ld) r3 + r4 - r) <= 3 * bound)) ++badAdd;
        double r5 = 3, e5; cmmcore::integrate(f.f, a, a, r5, e5, tol); c.check(r5 == 0, "empty-interval", [&] { return S(r5); });
        c.check(calls <= 5 + (1 << 22), "bounded-calls");
    }
    c.check(bad <= N / 4, "accuracy", [&] { return S(bad, " of ", N, " integrals miss the tolerance; ", worst); });
    c.check(badAdd <= N / 3, "additivity", [&] { return S(badAdd, " of ", N, " splits disagree"); });
}
SUITE(cubic_exact, 3000, 60000) {
    Rng &g = c.rng; double k[4]; for (auto &v : k) v = g.uni(-5, 5); double a = g.uni(-10, 10), b = g.uni(-10, 10), r, e; c.d << "cubic [" << a << "," << b << "]"; c.nontrivial(hcomb(hd(a), hd(k[0]))); long calls = 0;
    cmmcore::integrate([&](double x) { ++calls; return ((k[3] * x + k[2]) * x + k[1]) * x + k[0]; }, a, b, r, e, 1e-6); auto F = [&](ld x) { return x * (k[0] + x * (k[1] / 2.0L + x * (k[2] / 3.0L + x * k[3] / 4.0L))); }; ld mag = fabsl(F(a)) + fabsl(F(b)) + 1;
    c.check(fabsl(r - (F(b) - F(a))) <= 1e-13L * mag * 20, "exact", [&] { return S(r, " exact ", (double) (F(b) - F(a))); }); c.check(e >= 0 && e <= 1e-10 * (double) mag, "estimate", [&] { return S(e); });
}
SUITE(max_depth, 300, 3000) { // hard integrands stop at the depth limit
    Rng &g = c.rng; int depth = g.i(1, 12); double s = g.uni(-.9, .9); long calls = 0; double r, e; c.d << "abs kink at " << s << " depth " << depth; c.nontrivial(hcomb(hd(s), depth));
    cmmcore::integrate([&](double x) { ++calls; return std::fabs(x - s); }, -1, 1, r, e, 1e-300, depth); ld ex = ((ld) s + 1) * (s + 1) / 2 + (1 - (ld) s) * (1 - (ld) s) / 2; c.check(calls <= 3 + 2 * ((2L << depth) - 1), "calls", [&] { return S(calls, " calls at depth ", depth); }); c.check(fabsl(r - ex) <= 8.0L / pow(4, depth) + 1e-12L, "value", [&] { return S(r, " exact ", (double) ex); });
}
SUITE(inverse, 3000, 60000) {
    Rng &g = c.rng; double s = g.uni(1, 3), w = g.uni(.3, 1.5), t0 = g.uni(-3, 3), t1 = t0 + g.uni(.3, 3) * (g.p(.8) ? 1 : -1), amp = g.uni(0, .4); auto f = [=](double x) { return s + amp * std::sin(w * x); }; auto F = [=](ld x) { return s * x - amp * cosl(w * x) / w; };
    ld I = F(t1) - F(t0); double guess = t1 + g.uni(-1, 1), tol = pow(10, -g.i(4, 10)); c.d << "t0=" << t0 << " t1=" << t1 << " guess " << guess << " tol " << tol; c.nontrivial(hcomb(hd(t0), hd(t1)));
    double t = cmmcore::find_t1_newton(t0, (double) I, f, guess, tol); c.check(std::isfinite(t) && fabsl(F(t) - F(t0) - I) <= 30 * tol, "integral-matches", [&] { return S("returned ", t, " expected ", t1); });
}
SUITE(inverse_flat, 200, 1000) { Rng &g = c.rng; double t0 = g.uni(-1, 1); c.d << "zero integrand"; c.nontrivial(hd(t0)); double t = cmmcore::find_t1_newton(t0, 1.0, [](double) { return 0.0; }, t0 + .5); c.check(std::isnan(t), "flat-rejected", [&] { return S(t); }); }
HARNESS_MAIN
