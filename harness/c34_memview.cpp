// C34: array views against a plain index model (Python slicing rules), with base memory in an exact heap block.
#include "common.h"
#include "cmmcore/memoryview.h"
#include <climits>
using namespace H;
using namespace cmmcore;

// model of a view: shape and, in row-major order, which base element each entry is
struct Model { std::vector<size_t> shape; std::vector<size_t> at; };
static size_t total(const std::vector<size_t> &s) { size_t n = 1; for (size_t x : s) n *= x; return n; }
static std::string str(const std::vector<size_t> &s) { std::string r = "("; for (size_t k = 0; k < s.size(); ++k) r += (k ? "," : "") + std::to_string(s[k]); return r + ")"; }
static bool nextIx(std::vector<size_t> &ix, const std::vector<size_t> &sh) { for (size_t k = sh.size(); k-- > 0;) { if (++ix[k] < sh[k]) return true; ix[k] = 0; } return false; }

struct Py { long lo, step; long n; bool single; };
// Python's slice.indices / index rules; false when the operation is an error
static bool resolve(const Slice &s, long n, Py &o) {
    if (s.single_index) { long i = s.index; if (i < 0) i += n; if (i < 0 || i >= n) return false; o = {i, 1, 1, true}; return true; }
    long st = s.step; if (st == 0) return false;
    long lo, hi;
    if (st > 0) {
        lo = s.has_start ? (s.start < 0 ? std::max(0L, s.start + n) : std::min((long) s.start, n)) : 0;
        hi = s.has_stop ? (s.stop < 0 ? std::max(0L, s.stop + n) : std::min((long) s.stop, n)) : n;
    } else {
        lo = s.has_start ? (s.start < 0 ? std::max(-1L, s.start + n) : std::min((long) s.start, n - 1)) : n - 1;
        hi = s.has_stop ? (s.stop < 0 ? std::max(-1L, s.stop + n) : std::min((long) s.stop, n - 1)) : -1;
    }
    long cnt = 0; for (long i = lo; st > 0 ? i < hi : i > hi; i += st) ++cnt;
    o = {lo, st, cnt, false}; return true;
}
static Slice anySlice(Rng &r, int n, bool negative) {
    double k = r.u();
    if (k < .2) return Slice();
    if (k < .4) return Slice(r.i(-n - 1, n));
    int st = r.i(1, 3) * (negative && r.p(.45) ? -1 : 1); if (r.p(.02)) st = 0; if (r.p(.03)) st = r.p(.5) ? INT_MAX : (negative ? INT_MIN + 1 : 7);
    Slice s(r.i(-n - 2, n + 2), r.i(-n - 2, n + 2), st);
    if (r.p(.04)) s.start = r.p(.5) ? INT_MIN : INT_MAX;
    if (r.p(.04)) s.stop = r.p(.5) ? INT_MIN : INT_MAX;
    if (r.p(.2)) s.has_start = false;
    if (r.p(.2)) s.has_stop = false;
    return s;
}
static std::string str(const Slice &s) { return s.single_index ? std::to_string(s.index) : S(s.has_start ? std::to_string(s.start) : "", ":", s.has_stop ? std::to_string(s.stop) : "", ":", s.step); }

static void compare(Case &c, const MemoryView<int> &v, const Model &m, const int *base, const char *what) {
    if (!c.check(v.shape() == m.shape, std::string(what) + "-shape", [&] { return S("shape ", str(v.shape()), " instead of ", str(m.shape)); })) return;
    c.check(v.size() == m.at.size(), std::string(what) + "-size", [&] { return S("size() ", v.size(), " instead of ", m.at.size()); });
    if (m.at.empty()) return;
    std::vector<size_t> ix(m.shape.size(), 0); size_t k = 0;
    do { const int &e = v(ix);
        if (!c.check(&e == base + m.at[k], std::string(what) + "-element", [&] { return S("element ", str(ix), " is base[", (long) (&e - base), "] instead of base[", m.at[k], "]"); })) return;
        ++k; } while (nextIx(ix, m.shape));
}
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static bool contiguous(const Model &m) { for (size_t k = 1; k < m.at.size(); ++k) if (m.at[k] != m.at[k - 1] + 1) return false; return true; }
static std::vector<size_t> factor(Rng &r, size_t n) { // random shape of the same size
    std::vector<size_t> s; if (n == 0) { s = {0}; if (r.p(.5)) s.insert(s.begin() + r.i(0, 1), r.i(1, 3)); return s; }
    while (n > 1 && s.size() < 4) { std::vector<size_t> d; for (size_t x = 2; x <= n; ++x) if (n % x == 0) d.push_back(x); size_t x = s.size() == 3 ? n : r.pick(d); s.push_back(x); n /= x; }
    if (n > 1) s.back() *= n;
    while (s.empty() || (s.size() < 5 && r.p(.3))) s.insert(s.begin() + r.i(0, (int) s.size()), 1);
    r.shuffle(s); return s;
}

static void program(Case &c, bool negative) {
    int nd = c.rng.i(1, 4); Model m; for (int k = 0; k < nd; ++k) m.shape.push_back(c.rng.p(.04) ? 0 : c.rng.p(.15) ? 1 : c.rng.i(2, 6));
    size_t n = total(m.shape); for (size_t k = 0; k < n; ++k) m.at.push_back(k);
    std::unique_ptr<int[]> own(new int[n]); int *base = own.get(); for (size_t k = 0; k < n; ++k) base[k] = (int) k * 7 + 3;
    std::vector<int> shadow(base, base + n); shadow.reserve(1);
    MemoryView<int> v(base, m.shape); c.d << "shape " << str(m.shape); uint64_t h = hcomb(n, nd); for (size_t s : m.shape) h = hcomb(h, s);
    compare(c, v, m, base, "base");
    for (int step = c.rng.i(1, 6); step > 0 && !c.failed; --step) {
        int op = c.rng.i(0, 9);
        if (op <= 4) { // slice
            std::vector<Slice> sl; int cnt = c.rng.p(.03) ? (int) m.shape.size() + 1 : c.rng.i(0, (int) m.shape.size());
            for (int k = 0; k < cnt; ++k) sl.push_back(anySlice(c.rng, k < (int) m.shape.size() ? (int) m.shape[k] : 3, negative));
            c.d << " slice["; for (auto &s : sl) c.d << str(s) << ","; c.d << "]";
            bool bad = cnt > (int) m.shape.size(); std::vector<Py> py(m.shape.size());
            for (size_t k = 0; k < m.shape.size(); ++k) { Slice s = k < sl.size() ? sl[k] : Slice(); if (!resolve(s, (long) m.shape[k], py[k])) bad = true; }
            if (bad) { c.check(throws([&] { v.slice(sl); }), "bad-slice-accepted", [&] { return std::string("an out-of-range index, zero step or surplus slice was accepted"); }); compare(c, v, m, base, "after-rejected-slice"); h = hcomb(h, 3); continue; }
            Model r; std::vector<size_t> cntv; for (auto &p : py) { cntv.push_back(p.n); if (!p.single) r.shape.push_back(p.n); }
            if (total(cntv)) { std::vector<size_t> ix(cntv.size(), 0); do { size_t f = 0; for (size_t k = 0; k < ix.size(); ++k) f = f * m.shape[k] + (size_t) (py[k].lo + py[k].step * (long) ix[k]); r.at.push_back(m.at[f]); } while (nextIx(ix, cntv)); }
            MemoryView<int> w = v.slice(sl); compare(c, v, m, base, "sliced-source"); v = w; m = r; compare(c, v, m, base, "slice");
        } else if (op == 5) { // operator[]
            if (m.shape.empty()) { c.check(throws([&] { v[0]; }), "index-scalar-accepted", [&] { return std::string("indexing a 0-dimensional view was accepted"); }); continue; }
            size_t i = c.rng.next() % (m.shape[0] + 2); if (c.rng.p(.05)) i = ~(size_t) 0; c.d << " [" << i << "]";
            if (i >= m.shape[0]) { c.check(throws([&] { v[i]; }), "bad-index-accepted", [&] { return S("index ", i, " of ", m.shape[0], " was accepted"); }); continue; }
            Model r; r.shape.assign(m.shape.begin() + 1, m.shape.end()); size_t sub = total(r.shape); r.at.assign(m.at.begin() + i * sub, m.at.begin() + (i + 1) * sub);
            MemoryView<int> w = v[i]; v = w; m = r; compare(c, v, m, base, "index");
        } else if (op <= 7) { // reshape
            if (c.rng.p(.25)) { auto s = m.shape; if (s.empty()) s = {2}; else s[c.rng.next() % s.size()] += 1; if (c.rng.p(.2)) s = {(size_t) 1 << 63, 2, std::max<size_t>(1, m.at.size())};
                if (total(s) != m.at.size() || s[0] > 1000) { c.d << " bad-reshape" << str(s); c.check(throws([&] { v.reshape(s); }), "bad-reshape-accepted", [&] { return S("reshape of ", str(m.shape), " to ", str(s), " was accepted"); }); compare(c, v, m, base, "after-rejected-reshape"); continue; } }
            auto s = c.rng.p(.15) ? m.shape : factor(c.rng, m.at.size()); c.d << " reshape" << str(s);
            bool t = throws([&] { v.reshape(s); });
            bool must = contiguous(m) || s == m.shape;
            if (t) { c.check(!must, "reshape-rejected", [&] { return S("reshape of a contiguous ", str(m.shape), " view to ", str(s), " was rejected"); }); compare(c, v, m, base, "after-rejected-reshape"); }
            else { m.shape = s; compare(c, v, m, base, "reshape"); }
        } else if (op == 8) { // write through the view
            if (m.at.empty()) continue; size_t k = c.rng.next() % m.at.size(); std::vector<size_t> ix(m.shape.size()); size_t q = k; for (size_t d = ix.size(); d-- > 0;) { ix[d] = q % m.shape[d]; q /= m.shape[d]; }
            int val = c.rng.i(-1000000, 1000000); v(ix) = val; shadow[m.at[k]] = val; c.d << " write" << str(ix);
            c.check(memcmp(shadow.data(), base, n * sizeof(int)) == 0, "write", [&] { return std::string("the base does not differ in exactly the written element"); });
        } else { // copy
            c.d << " copy"; std::unique_ptr<MemoryView<int>> w(v.copy()); std::vector<int> got; Model fresh; fresh.shape = m.shape;
            c.check(w->shape() == m.shape && w->size() == m.at.size(), "copy-shape", [&] { return S("copy has shape ", str(w->shape())); });
            if (w->shape() == m.shape && !m.at.empty()) {
                std::vector<size_t> ix(m.shape.size(), 0); size_t k = 0; bool ok = true; do { int &e = (*w)(ix); ok = ok && e == shadow[m.at[k]] && !(&e >= base && &e < base + n); e = -1 - (int) k; ++k; } while (nextIx(ix, m.shape));
                c.check(ok, "copy-elements", [&] { return std::string("the copy does not hold the viewed elements in its own memory"); });
                c.check(memcmp(shadow.data(), base, n * sizeof(int)) == 0, "copy-independent", [&] { return std::string("writing to the copy changed the base"); });
                MemoryView<int> second = *w; std::fill(ix.begin(), ix.end(), 0);
                // slices and elements of a view that owns its memory keep that memory alive
                std::vector<Slice> some; for (size_t k = 0; k < m.shape.size() && c.rng.p(.7); ++k) some.push_back(Slice(0, (int) m.shape[k], 1)); MemoryView<int> part = w->slice(some); bool idx = !m.shape.empty(); MemoryView<int> row = idx ? (*w)[0] : *w; MemoryView<int> shaped = part; shaped.reshape({m.at.size()}); std::vector<size_t> ix0(ix.begin(), ix.end()), ix1(ix.begin() + (idx ? 1 : 0), ix.end());
                auto after = [&](MemoryView<int> &x, const std::vector<size_t> &at, const char *key) { c.check(x(at) == -1, key, [&] { return std::string("a view of the copy lost its elements"); }); };
                w.reset(); after(second, ix, "copy-of-copy"); { MemoryView<int> gone = second; }
                // in the end only one of them is left
                MemoryView<int> none(base, {n}); int keep = c.rng.i(0, 3); if (keep != 0) second = none; if (keep != 1) part = none; if (keep != 2) row = none; if (keep != 3) shaped = none;
                if (keep == 0) after(second, ix, "copy-of-copy"); else if (keep == 1) after(part, ix0, "slice-of-copy"); else if (keep == 2) after(row, ix1, "row-of-copy"); else after(shaped, {0}, "reshaped-copy");
            }
        }
        h = hcomb(h, op); for (size_t s : m.shape) h = hcomb(h, s); if (!m.at.empty()) h = hcomb(h, m.at[0] * 131 + m.at.back());
    }
    if (c.failed) return;
    // element access rejects every out-of-range index and wrong rank
    for (int k = 0; k < 6; ++k) {
        std::vector<size_t> ix(m.shape.size(), 0); for (size_t d = 0; d < ix.size(); ++d) ix[d] = m.shape[d] ? c.rng.next() % m.shape[d] : 0;
        bool bad = false; if (!ix.empty() && c.rng.p(.6)) { size_t d = c.rng.next() % ix.size(); ix[d] = m.shape[d] + (c.rng.p(.2) ? (1ULL << 62) : c.rng.i(0, 2)); bad = true; }
        if (c.rng.p(.2)) { ix.push_back(0); bad = true; } else if (!ix.empty() && c.rng.p(.1)) { ix.pop_back(); bad = true; }
        if (m.at.empty()) bad = true;
        if (bad) c.check(throws([&] { v(ix); }), "bad-element-accepted", [&] { return S("element ", str(ix), " of ", str(m.shape), " was accepted"); });
    }
    // text preview lists the leading elements
    size_t lim = c.rng.i(1, 12); std::string txt = v.to_string(lim); auto p = txt.find('['); std::vector<int> shown;
    if (c.check(p != std::string::npos, "preview", [&] { return txt; })) { const char *q = txt.c_str() + p + 1; while (true) { char *e; long x = strtol(q, &e, 10); if (e == q) break; shown.push_back((int) x); q = e; if (*q == ',') ++q; }
        bool ok = shown.size() == std::min(lim, m.at.size()); for (size_t k = 0; ok && k < shown.size(); ++k) ok = shown[k] == shadow[m.at[k]];
        c.check(ok, "preview-elements", [&] { return txt; }); }
    if (contiguous(m) && !m.at.empty()) c.check(v.begin() == base + m.at[0] && v.end() == v.begin() + m.at.size(), "iterators", [&] { return std::string("begin/end of a contiguous view do not span it"); });
    c.check(memcmp(shadow.data(), base, n * sizeof(int)) == 0, "base-unchanged", [&] { return std::string("the base was modified by reading"); });
    c.nontrivial(h);
}
SUITE(forward, 6000, 120000) { program(c, false); }
SUITE(backward, 6000, 120000) { program(c, true); }
// one dimension: every start, stop, step and open end for small sizes
SUITE(exhaustive, 64, 64) {
    int n = (int) (c.index % 8), st = (int) (c.index / 8) - 4; if (st >= 0) ++st;
    std::unique_ptr<int[]> own(new int[n]); MemoryView<int> v(own.get(), {(size_t) n}); Model m; m.shape = {(size_t) n}; for (int k = 0; k < n; ++k) m.at.push_back(k);
    c.d << "size " << n << " step " << st; c.nontrivial(c.index + 1);
    for (int a = -n - 2; a <= n + 3; ++a) for (int b = -n - 2; b <= n + 3; ++b) {
        Slice s(a, b, st); if (a == n + 3) s.has_start = false; if (b == n + 3) s.has_stop = false;
        Py p; resolve(s, n, p); Model r; r.shape = {(size_t) p.n}; for (long k = 0; k < p.n; ++k) r.at.push_back(p.lo + k * p.step);
        compare(c, v.slice({s}), r, own.get(), S("slice1d").c_str());
        if (c.failed) { c.d << " slice " << str(s); return; }
    }
}
HARNESS_MAIN
