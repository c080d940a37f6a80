// Scalar minimiser: the objective itself is the monitor, it records every evaluation.
#include "common.h"
#include "cmmcore/minimize_scalar.h"
using namespace H; using namespace cmmcore;
SUITE(unimodal, 6000, 400000) {
    Rng &g = c.rng; double s = pow(10, g.uni(-3, 4)), a = g.uni(-2, 2) * s, b = a + s * pow(10, g.uni(-2, 1)); if (g.p(.1)) { a = 0; b = s; } if (g.p(.1)) { b = 0; a = -s; } double w = b - a, m; int where = g.i(0, 5); m = where == 0 ? a : where == 1 ? b : where == 2 ? a - w * g.u() : where == 3 ? b + w * g.u() : a + w * g.u(); if (g.p(.1)) m = .5 * (a + b); int kind = g.i(0, 5); double k = pow(10, g.uni(-2, 2)), off = g.p(.5) ? 0 : g.gauss() * k; double t0 = std::clamp(m, a, b);
    auto val = [&](double x) { double d = (x - m) / w; switch (kind) { case 0: return k * d * d + off; case 1: return k * std::abs(d) + off; case 2: return k * d * d * d * d + off; case 3: return k * (std::exp(d) - d) + off; case 4: return k * (d < 0 ? d * d : 3 * d * d) + off; default: return k * std::sqrt(d * d + .01) + off; } };
    double xatol = g.p(.5) ? 1e-5 : w * pow(10, g.uni(-8, -2)); int maxiter = g.p(.7) ? 500 : g.i(1, 30); bool mono = m < a - .05 * w || m > b + .05 * w; int calls = 0; std::vector<std::pair<double, double>> seen; std::function<double(double)> f = [&](double x) { ++calls; double y = val(x); seen.push_back({x, y}); return y; }; c.d << "kind " << kind << " [" << a << "," << b << "] minimum at " << m << " k " << k << " offset " << off << " xatol " << xatol << " maxiter " << maxiter; c.nontrivial(hcomb(hd(a), hcomb(hd(b), hcomb(hd(m), hcomb(kind, hd(xatol)))))); 
    OptimizeResult<double> r; r.fun = r.x = 9e99; r.nfev = r.nit = -1; minimize_scalar_bounded<double>(f, {a, b}, r, xatol, maxiter); auto msg = [&] { return S("x ", r.x, " fun ", r.fun, " status ", r.status, " nfev ", r.nfev, " calls ", calls); };
    c.check(r.x >= a && r.x <= b, "outside-bounds", msg); bool ev = false, best = true, in = true; for (auto &p : seen) { if (p.first == r.x && p.second == r.fun) ev = true; if (p.second < r.fun) best = false; if (!(p.first >= a && p.first <= b)) in = false; } c.check(ev, "value-not-of-x", msg); c.check(best, "better-evaluation-dropped", msg); c.check(in, "evaluated-outside-bounds", msg); c.check(r.nfev == calls, "nfev", msg); c.check(calls <= std::max(maxiter, 2), "call-limit-exceeded", msg); c.check(r.success == (r.status == 0), "success-flag", msg); c.check(r.status == 0 || r.status == 1, "status", msg); if (r.status == 1) c.check(calls >= maxiter, "limit-claimed-early", msg);
    if (r.status == 0) { // resolution of the objective: where values differ by rounding only the position is free
        double mag = std::abs(off) + std::abs(val(t0)) + 1e-300, res = 0; double noise = 8e-16 * (mag + k); switch (kind) { case 0: case 3: case 4: res = w * std::sqrt(noise / k) * 2; break; case 1: res = w * noise / k; break; case 2: res = w * std::pow(noise / k, .25) * 2; break; default: res = w * std::sqrt(noise / k * .2) * 2; } if (mono) res = 0; double tol = 2 * xatol + 1e-7 * std::abs(t0) + 4 * res; c.check(std::abs(r.x - t0) <= tol, "minimum-missed", [&] { return S("kind ", kind, " w ", w, " k ", k, " xatol ", xatol, msg(), " minimum ", t0, " tolerance ", tol); }); }
    if (maxiter == 500 && (xatol > w * 1e-8)) c.check(r.status == 0, "not-converged", msg);
}
SUITE(multimodal, 3000, 150000) { // any objective: consistency of the report
    Rng &g = c.rng; double a = g.uni(-10, 10), b = a + g.uni(0, 20); if (g.p(.05)) b = a; double p = g.uni(0, 6), q = g.uni(.5, 8), z = g.gauss(); int nanat = g.p(.15) ? g.i(1, 6) : 0; bool allnan = g.p(.03); int flat = g.i(0, 5); auto val = [&](double x) { if (allnan) return std::nan(""); if (flat == 0) return 2.5; if (flat == 1) return std::floor(x); return std::sin(q * x + p) + z * .1 * x; }; int calls = 0; bool nan = false; std::vector<std::pair<double, double>> seen; std::function<double(double)> f = [&](double x) { double y = ++calls == nanat ? std::nan("") : val(x); nan = nan || std::isnan(y); seen.push_back({x, y}); return y; }; int maxiter = g.p(.5) ? 500 : g.i(1, 40); double xatol = pow(10, g.uni(-9, -1)); c.d << "[" << a << "," << b << "] sin(" << q << "x+" << p << ") slope " << z << " nan at " << nanat << " xatol " << xatol << " maxiter " << maxiter; c.nontrivial(hcomb(hd(a), hcomb(hd(b), hd(q)))); OptimizeResult<double> r; minimize_scalar_bounded<double>(f, {a, b}, r, xatol, maxiter); auto msg = [&] { return S("x ", r.x, " fun ", r.fun, " status ", r.status, " nfev ", r.nfev, " calls ", calls); };
    c.check(r.nfev == calls, "nfev", msg); c.check(calls <= std::max(maxiter, 2), "call-limit-exceeded", msg); c.check(r.success == (r.status == 0), "success-flag", msg); bool in = true, best = true, ev = false; for (auto &s : seen) { in = in && s.first >= a && s.first <= b; if (s.second < r.fun) best = false; if (s.first == r.x && (s.second == r.fun || (std::isnan(s.second) && std::isnan(r.fun)))) ev = true; } c.check(in, "evaluated-outside-bounds", msg); c.check(ev, "value-not-of-x", msg); if (!nan) c.check(best, "better-evaluation-dropped", msg); if (allnan) c.check(!r.success, "nan-success", msg); if (std::isnan(r.fun)) c.check(!r.success, "nan-success", msg);
}
SUITE(invalid, 300, 3000) {
    Rng &g = c.rng; double inf = INFINITY; double lo = g.gauss(), hi = lo - g.uni(1e-6, 5); int k = g.i(0, 4); std::pair<double, double> b{lo, hi}; if (k == 1) b = {-inf, hi}; if (k == 2) b = {lo, inf}; if (k == 3) b = {std::nan(""), lo}; if (k == 4) b = {hi, std::nan("")}; c.d << b.first << " " << b.second; c.nontrivial(hcomb(hd(b.first), hd(b.second))); int calls = 0; std::function<double(double)> f = [&](double x) { ++calls; return x * x; }; bool t = false; OptimizeResult<double> r; try { minimize_scalar_bounded<double>(f, b, r); } catch (const std::invalid_argument &) { t = true; } c.check(t && calls == 0, "bad-bounds-accepted", [&] { return S("bounds ", b.first, ",", b.second, " calls ", calls); });
}
HARNESS_MAIN
