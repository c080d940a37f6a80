// C33: serialisation round-trips; truncated or structurally corrupted streams are rejected.
#include "common.h"
#include <climits>
#include "cmmcore/nurbs.h"
#include "cmmcore/serialization.h"
#include "cmmcore/memoryview.h"
#include "ref.h"
#include "gen.h"
using namespace H;
using namespace cmmcore;

static bool bitEq(double a, double b) { return hd(a) == hd(b); }
static double anyDouble(Rng &r) {
    switch (r.i(0, 7)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return std::numeric_limits<double>::infinity();
        case 3: return std::numeric_limits<double>::denorm_min();
        case 4: return -std::numeric_limits<double>::max();
        case 5: return std::numeric_limits<double>::quiet_NaN();
        case 6: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }
        default: return r.uni(-1000, 1000);
    }
}
static NURBSCurve anyCurve(Rng &r) {
    if (r.p(.2)) { int p = r.i(2, 4), n = p + 2 + r.i(0, 5); std::vector<vec3> q; for (int i = 0; i < n; ++i) q.push_back(vec3(r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5))); return NURBSCurve(q, p, true); }
    G::CurveOpt o; o.maxDeg = 6; o.open = .15;
    return G::curve(r, o);
}
static bool sameCurve(Case &c, NURBSCurve &a, NURBSCurve &b, const char *what) {
    bool ok = a.get_degree() == b.get_degree() && a.is_periodic() == b.is_periodic() && a.control_points.size() == b.control_points.size() && a.knots.size() == b.knots.size();
    if (!c.check(ok, std::string(what) + "-structure", [&] { return S("degree/periodic/counts differ: ", a.get_degree(), " vs ", b.get_degree(), ", ", a.control_points.size(), " vs ", b.control_points.size(), ", ", a.knots.size(), " vs ", b.knots.size()); })) return false;
    for (size_t i = 0; i < a.control_points.size(); ++i) for (int k = 0; k < 4; ++k) ok = ok && bitEq(a.control_points[i][k], b.control_points[i][k]);
    for (size_t i = 0; i < a.knots.size(); ++i) ok = ok && bitEq(a.knots[i], b.knots[i]);
    return c.check(ok, std::string(what) + "-values", [&] { return std::string("control points or knots differ after the round trip"); });
}
static void sameShape(Case &c, NURBSCurve &a, NURBSCurve &b, const char *what) {
    auto ia = a.interval(), ib = b.interval();
    c.check(bitEq(ia[0], ib[0]) && bitEq(ia[1], ib[1]), std::string(what) + "-domain", [&] { return S("domain ", ib[0], "..", ib[1], " instead of ", ia[0], "..", ia[1]); });
    for (int k = 0; k < 6; ++k) {
        double t = k == 0 ? ia[0] : k == 1 ? ia[1] : c.rng.uni(ia[0], ia[1]);
        vec3 p, q; a.evaluate(t, p); b.evaluate(t, q);
        c.check(bitEq(p.x, q.x) && bitEq(p.y, q.y) && bitEq(p.z, q.z), std::string(what) + "-evaluation", [&] { return S("t=", t, " (", q.x, ",", q.y, ",", q.z, ") instead of (", p.x, ",", p.y, ",", p.z, ")"); });
    }
    auto &ba = a.aabb(); auto &bb = b.aabb();
    bool ok = true; for (int k = 0; k < 3; ++k) ok = ok && bitEq(ba.min[k], bb.min[k]) && bitEq(ba.max[k], bb.max[k]);
    c.check(ok, std::string(what) + "-box", [&] { return std::string("bounding box differs"); });
}

SUITE(sequence, 1500, 20000) {
    struct Item { int kind; std::vector<double> d; int i; };
    std::vector<Item> items; std::vector<uint8_t> buf;
    int n = c.rng.i(1, 12); c.d << "items";
    uint64_t h = 0;
    for (int k = 0; k < n; ++k) {
        Item it; it.kind = c.rng.i(0, 6); it.i = 0; c.d << " " << it.kind;
        switch (it.kind) {
            case 0: it.i = c.rng.p(.3) ? (c.rng.p(.5) ? INT_MIN : INT_MAX) : (int) c.rng.next(); serializeInt(buf, it.i); break;
            case 1: it.d = {anyDouble(c.rng)}; serializeDouble(buf, it.d[0]); break;
            case 2: it.i = c.rng.i(0, 1); serializeBool(buf, it.i); break;
            case 3: for (int m = c.rng.p(.2) ? 0 : c.rng.i(1, 40); m > 0; --m) it.d.push_back(anyDouble(c.rng)); serializeVectorDouble(buf, it.d); break;
            case 4: for (int m = 0; m < 4; ++m) it.d.push_back(anyDouble(c.rng)); serializeVec4(buf, vec4(it.d[0], it.d[1], it.d[2], it.d[3])); break;
            case 5: { std::vector<vec4> v; for (int m = c.rng.p(.2) ? 0 : c.rng.i(1, 15); m > 0; --m) { vec4 q(anyDouble(c.rng), anyDouble(c.rng), anyDouble(c.rng), anyDouble(c.rng)); v.push_back(q); for (int e = 0; e < 4; ++e) it.d.push_back(q[e]); }
                serializeVectorVec4(buf, v); break; }
            case 6: { NURBSCurve cv = anyCurve(c.rng); auto b = serializeNURBSCurve(cv); buf.insert(buf.end(), b.begin(), b.end());
                it.i = cv.get_degree(); it.d.push_back(cv.is_periodic()); it.d.push_back(cv.control_points.size()); for (auto &q : cv.control_points) for (int e = 0; e < 4; ++e) it.d.push_back(q[e]); for (double t : cv.knots) it.d.push_back(t); break; }
        }
        h = hcomb(h, it.kind * 977 + it.i); for (double d : it.d) h = hcomb(h, hd(d));
        items.push_back(it);
    }
    c.nontrivial(h);
    std::unique_ptr<uint8_t[]> mem(new uint8_t[buf.size()]); memcpy(mem.get(), buf.data(), buf.size());   // exact block: any overread is seen
    const uint8_t *p = mem.get();
    for (int k = 0; k < n; ++k) {
        Item &it = items[k]; std::vector<double> got; int gi = 0;
        switch (it.kind) {
            case 0: gi = deserializeInt(p); break;
            case 1: got = {deserializeDouble(p)}; break;
            case 2: gi = deserializeBool(p); break;
            case 3: got = deserializeVectorDouble(p); break;
            case 4: { vec4 q = deserializeVec4(p); for (int e = 0; e < 4; ++e) got.push_back(q[e]); break; }
            case 5: { auto v = deserializeVectorVec4(p); for (auto &q : v) for (int e = 0; e < 4; ++e) got.push_back(q[e]); break; }
            case 6: { NURBSCurve cv = deserializeNURBSCurve(p); gi = cv.get_degree(); got.push_back(cv.is_periodic()); got.push_back(cv.control_points.size()); for (auto &q : cv.control_points) for (int e = 0; e < 4; ++e) got.push_back(q[e]); for (double t : cv.knots) got.push_back(t); break; }
        }
        bool ok = gi == it.i && got.size() == it.d.size();
        for (size_t m = 0; ok && m < got.size(); ++m) ok = bitEq(got[m], it.d[m]);
        if (!c.check(ok, S("item-kind-", it.kind), [&] { return S("item ", k, " of ", n, " differs after the round trip"); })) return;
    }
    c.check(p == mem.get() + buf.size(), "sequence-consumed", [&] { return S("read ", p - mem.get(), " of ", buf.size(), " bytes"); });
}

SUITE(curve_roundtrip, 800, 10000) {
    NURBSCurve cv = anyCurve(c.rng); G::describe(c, cv); c.nontrivial(G::fp(cv));
    auto buf = serializeNURBSCurve(cv);
    std::unique_ptr<uint8_t[]> mem(new uint8_t[buf.size()]); memcpy(mem.get(), buf.data(), buf.size());
    const uint8_t *p = mem.get();
    NURBSCurve back = deserializeNURBSCurve(p);
    c.check(p == mem.get() + buf.size(), "curve-consumed", [&] { return S("read ", p - mem.get(), " of ", buf.size(), " bytes"); });
    if (sameCurve(c, cv, back, "curve")) sameShape(c, cv, back, "curve");
    NURBSCurve target = anyCurve(c.rng); p = mem.get(); target = deserializeNURBSCurve(p);
    if (sameCurve(c, cv, target, "assigned")) sameShape(c, cv, target, "assigned");
}

SUITE(list_and_file, 400, 4000) {
    int n = c.rng.p(.1) ? 0 : c.rng.i(1, 6); std::vector<NURBSCurve> cs; uint64_t h = n;
    for (int k = 0; k < n; ++k) { cs.push_back(anyCurve(c.rng)); h = hcomb(h, G::fp(cs.back())); }
    c.d << n << " curves"; if (n) { c.d << ", first "; G::describe(c, cs[0]); c.nontrivial(h); }
    auto buf = serializeNURBSCurves(cs);
    auto back = deserializeNURBSCurves(buf);
    if (c.check(back.size() == cs.size(), "list-count", [&] { return S(back.size(), " instead of ", cs.size()); }))
        for (int k = 0; k < n; ++k) if (sameCurve(c, cs[k], back[k], "list")) sameShape(c, cs[k], back[k], "list");
    std::string fn = S("c33_", getpid(), ".bin");
    if (c.rng.p(.5)) { std::ofstream o(fn, std::ios::binary); std::string junk(c.rng.i(1, 20000), 'x'); o << junk; }   // an existing longer file is replaced
    bool w = writeNURBSCurvesToFile(fn, cs);
    c.check(w, "write-reported", [&] { return std::string("writing a file failed"); });
    std::ifstream f(fn, std::ios::binary); std::vector<uint8_t> onDisk((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    c.check(onDisk == buf, "file-content", [&] { return S("file holds ", onDisk.size(), " bytes, serialised ", buf.size()); });
    auto fb = readNURBSCurvesFromFile(fn);
    if (c.check(fb.size() == cs.size(), "file-count", [&] { return S(fb.size(), " instead of ", cs.size()); }))
        for (int k = 0; k < n; ++k) sameCurve(c, cs[k], fb[k], "file");
    unlink(fn.c_str());
    bool threw = false; try { readNURBSCurvesFromFile(fn); } catch (const std::exception &) { threw = true; }
    c.check(threw, "missing-file", [&] { return std::string("a missing file was not reported"); });
    c.check(!writeNURBSCurvesToFile("no_such_dir/x.bin", cs), "unwritable-file", [&] { return std::string("an unwritable path was reported as written"); });
    if (access("/dev/full", W_OK) == 0) c.check(!writeNURBSCurvesToFile("/dev/full", cs), "full-disk", [&] { return S(buf.size(), " bytes that did not fit were reported as written"); });
}

// every prefix of a list is rejected, without touching memory behind it
SUITE(truncation, 160, 1600) {
    int n = c.rng.i(1, 3); std::vector<NURBSCurve> cs; uint64_t h = n;
    for (int k = 0; k < n; ++k) { cs.push_back(anyCurve(c.rng)); h = hcomb(h, G::fp(cs.back())); }
    c.d << n << " curves, every prefix"; c.nontrivial(h);
    auto buf = serializeNURBSCurves(cs);
    std::string fn = S("c33t_", getpid(), ".bin");
    size_t step = buf.size() > 4000 ? 3 : 1;
    for (size_t len = 0; len < buf.size(); len += (len < 64 ? 1 : step)) {
        std::vector<uint8_t> part(buf.begin(), buf.begin() + len); part.shrink_to_fit();
        bool threw = false;
        try { deserializeNURBSCurves(part); } catch (const std::exception &) { threw = true; }
        c.check(threw, "truncation-accepted", [&] { return S("a prefix of ", len, " of ", buf.size(), " bytes was accepted"); });
    }
    for (int k = 0; k < 3; ++k) {
        size_t len = c.rng.next() % buf.size();
        { std::ofstream o(fn, std::ios::binary); o.write((const char *) buf.data(), len); }
        bool threw = false; try { readNURBSCurvesFromFile(fn); } catch (const std::exception &) { threw = true; }
        c.check(threw, "truncated-file-accepted", [&] { return S("a file of ", len, " of ", buf.size(), " bytes was accepted"); });
    }
    unlink(fn.c_str());
}

// corrupted streams are rejected or decode to exactly what they say
SUITE(corruption, 800, 12000) {
    int n = c.rng.i(1, 3); std::vector<NURBSCurve> cs; uint64_t h = n;
    for (int k = 0; k < n; ++k) { cs.push_back(anyCurve(c.rng)); h = hcomb(h, G::fp(cs.back())); }
    auto good = serializeNURBSCurves(cs);
    // offsets of the structural fields
    std::vector<size_t> heads{0}; size_t pos = 4; std::vector<size_t> knotAt;
    for (auto &cv : cs) { heads.push_back(pos); pos += 5; heads.push_back(pos); pos += 4 + 32 * cv.control_points.size(); heads.push_back(pos); knotAt.push_back(pos + 4); pos += 4 + 8 * cv.knots.size(); }
    for (int rep = 0; rep < 40; ++rep) {
        auto b = good; std::string what; int mode = c.rng.i(0, 5); bool mustThrow = false;
        if (mode == 0) { size_t at = heads[c.rng.next() % heads.size()] + c.rng.i(0, 3); uint8_t v = (uint8_t) c.rng.next(); mustThrow = v != b[at]; b[at] = v; what = S("count byte ", at, "=", (int) v); }
        else if (mode == 1) { size_t at = heads[c.rng.next() % heads.size()]; int old; memcpy(&old, &b[at], 4); int v = c.rng.p(.5) ? -c.rng.i(1, 100) : c.rng.p(.5) ? INT_MAX - c.rng.i(0, 100) : INT_MIN; memcpy(&b[at], &v, 4); mustThrow = v != old; what = S("field ", at, "=", v); }
        else if (mode == 2) { size_t at = heads[c.rng.next() % heads.size()]; int old; memcpy(&old, &b[at], 4); int v = old + (c.rng.p(.5) ? 1 : -1) * c.rng.i(1, 3); memcpy(&b[at], &v, 4); mustThrow = true; what = S("field ", at, " ", old, "->", v); }
        else if (mode == 3) { for (int k = c.rng.i(1, 6); k > 0; --k) b[c.rng.next() % b.size()] = (uint8_t) c.rng.next(); what = "random bytes"; }
        else if (mode == 4) { size_t a = c.rng.next() % b.size(), len = 1 + c.rng.next() % std::min<size_t>(16, b.size() - a); b.erase(b.begin() + a, b.begin() + a + len); mustThrow = true; what = S("bytes ", a, "+", len, " missing"); }
        else { size_t a = c.rng.next() % (b.size() + 1); std::vector<uint8_t> ins(c.rng.i(1, 16)); for (auto &x : ins) x = (uint8_t) c.rng.next(); b.insert(b.begin() + a, ins.begin(), ins.end()); what = S(ins.size(), " bytes inserted at ", a); }
        b.shrink_to_fit();
        if (rep == 0) c.d << what;
        bool threw = false; std::vector<NURBSCurve> out;
        try { out = deserializeNURBSCurves(b); } catch (const std::exception &) { threw = true; }
        if (threw) { ++state()->events; continue; }
        c.check(!mustThrow, "corruption-accepted", [&] { return what + " was accepted"; });
        auto again = serializeNURBSCurves(out);
        bool ok = again.size() == b.size();
        size_t at = 0;
        if (ok) { // the periodic flag is derived from the control points when written
            std::set<size_t> flags; size_t q = 4; for (auto &cv : out) { flags.insert(q + 4); q += 5 + 4 + 32 * cv.control_points.size() + 4 + 8 * cv.knots.size(); }
            for (at = 0; ok && at < b.size(); ++at) ok = b[at] == again[at] || flags.count(at);
        }
        c.check(ok, "corruption-misread", [&] { return S(what, ": the decoded curves are not what the stream says (", b.size(), " bytes in, ", again.size(), " out, near ", at - 1, ": ", (int) b[at - 1], " became ", (int) again[at - 1], ")"); });
    }
    c.nontrivial(hcomb(h, c.rng.next()));
}

// streams that are complete but describe no curve: too few control points, knots that do not match or decrease
SUITE(inconsistent, 400, 5000) {
    int p = c.rng.i(1, 5), n = c.rng.i(1, p), how = c.rng.i(0, 3); NURBSCurve k; k._degree = p;
    if (how) n = p + c.rng.i(1, 4);
    k.control_points.resize(n); for (auto &v : k.control_points) v = vec4(c.rng.uni(-5, 5), c.rng.uni(-5, 5), c.rng.uni(-5, 5), 1);
    k.knots.resize(n + p + 1); for (size_t i = 0; i < k.knots.size(); ++i) k.knots[i] = i;
    if (how == 1) k.knots.resize(k.knots.size() + (c.rng.p(.5) ? 1 : -1), 99); else if (how == 2) { size_t i = c.rng.i(0, (int) k.knots.size() - 2); if (c.rng.p(.3)) k.knots[i] = NAN; else k.knots[i] = k.knots[i + 1] + c.rng.uni(.1, 2); } else if (how == 3) k._degree = -c.rng.i(1, 3);
    std::vector<uint8_t> one; serializeInt(one, 1); serializeInt(one, k._degree); serializeBool(one, false); serializeVectorVec4(one, k.control_points); serializeVectorDouble(one, k.knots);
    c.d << "how " << how << " degree " << k._degree << " points " << n << " knots " << k.knots.size(); c.nontrivial(hcomb(hcomb(how, n), hcomb(p, hd(k.control_points[0].x))));
    bool threw = false; try { deserializeNURBSCurves(one); } catch (const std::exception &) { threw = true; }
    c.check(threw, "inconsistent-accepted", [&] { return std::string("a stream that describes no curve was accepted"); });
}

// --- array views
static std::vector<size_t> anyShape(Rng &r) { int nd = r.i(1, 4); std::vector<size_t> s; for (int k = 0; k < nd; ++k) s.push_back(r.p(.05) ? 0 : r.i(1, 5)); return s; }
static size_t total(const std::vector<size_t> &s) { size_t n = 1; for (size_t x : s) n *= x; return n; }
template<class T> static std::vector<T> elements(const MemoryView<T> &v) {
    auto sh = v.shape(); size_t n = total(sh); std::vector<T> out;
    for (size_t i = 0; i < n; ++i) { std::vector<size_t> ix(sh.size()); size_t q = i; for (size_t k = sh.size(); k-- > 0;) { ix[k] = q % sh[k]; q /= sh[k]; } out.push_back(v(ix)); }
    return out;
}
template<class T> static void viewCase(Case &c) {
    bool big = c.rng.p(.1);   // now and then a stream of many kilobytes, in awkward sizes
    auto sh = anyShape(c.rng); if (big) sh = {(size_t) c.rng.i(1, 40), (size_t) c.rng.i(20, 130), (size_t) c.rng.i(1, 7)}; size_t n = total(sh);
    std::unique_ptr<T[]> base(new T[n]); for (size_t i = 0; i < n; ++i) base[i] = (T) (c.rng.i(-100000, 100000));
    MemoryView<T> root(base.get(), sh), v = root;
    c.d << "shape"; for (size_t s : sh) c.d << " " << s;
    std::vector<Slice> sl; for (size_t k = 0; k < sh.size(); ++k) { if (c.rng.p(.4)) { Slice s; sl.push_back(s); } else { int a = c.rng.i(0, (int) sh[k]), b = c.rng.i(0, (int) sh[k]), st = c.rng.i(1, 3); if (a > b) std::swap(a, b); sl.push_back(Slice(a, b, st)); c.d << " [" << a << ":" << b << ":" << st << "]@" << k; } }
    if (c.rng.p(.7)) v = root.slice(sl);
    auto want = elements(v); uint64_t h = want.size(); for (auto &x : want) h = hcomb(h, (uint64_t) (int64_t) x); for (size_t s : sh) h = hcomb(h, s);
    c.nontrivial(h);
    auto buf = v.serialize();
    buf.shrink_to_fit();
    {
        auto w = MemoryView<T>::deserialize(buf);
        c.check(w.shape() == v.shape() && elements(w) == want, "view-roundtrip", [&] { return std::string("elements or shape differ after the round trip"); });
        if (n) { auto e0 = want; for (size_t i = 0; i < n; ++i) base[i] = (T) 7; c.check(elements(w) == e0, "view-independent", [&] { return std::string("the restored array shares memory with the original"); }); }
        auto w2 = w; auto w3 = w2; w2 = w3;   // copies of a restored view keep its memory alive
        c.check(elements(w2) == want, "view-copies", [&] { return std::string("a copy of the restored view differs"); });
        auto buf2 = w.serialize(); c.check(buf2 == buf, "view-reserialise", [&] { return std::string("serialising the restored view gives other bytes"); });
    }
    { // a slice outlives the view it came from
        MemoryView<T> keep = want.empty() || v.shape().empty() ? MemoryView<T>::deserialize(buf) : MemoryView<T>::deserialize(buf)[0];
        auto got = elements(keep); std::vector<T> w(want.begin(), want.begin() + got.size());
        c.check(got == w, "view-slice-outlives", [&] { return std::string("a slice of a temporary restored view differs"); });
    }
    std::string fn = S("c33v_", getpid(), ".dat");
    FILE *f = fopen(fn.c_str(), "wb"); if (f) { MemoryView<T>::deserialize(buf).write_to_file(f); fclose(f); }
    f = fopen(fn.c_str(), "rb"); if (f) { auto w = MemoryView<T>::read_from_file(f); fclose(f); c.check(w.shape() == v.shape() && elements(w) == want, "view-file", [&] { return std::string("file round trip differs"); }); }
    unlink(fn.c_str());
    for (size_t len = 0; len < buf.size(); len += big && len > 120 ? 1 + c.rng.next() % (buf.size() / 20) : 1) {
        std::vector<char> part(buf.begin(), buf.begin() + len); part.shrink_to_fit(); bool threw = false;
        try { MemoryView<T>::deserialize(part); } catch (const std::exception &) { threw = true; }
        c.check(threw, "view-truncation-accepted", [&] { return S("a prefix of ", len, " of ", buf.size(), " bytes was accepted"); });
    }
    size_t name = 0; memcpy(&name, buf.data(), 8);
    size_t nd = v.shape().size(), headEnd = 16 + name + 16 * nd + 8;
    for (int rep = 0; rep < 40; ++rep) {
        auto b = buf; size_t words[] = {0, 8 + name}; size_t at; std::string what;
        if (c.rng.p(.6)) { // a count, dimension, stride or offset word becomes hostile
            int w = c.rng.i(0, 2 + 2 * (int) nd); at = w == 0 ? words[0] : w == 1 ? words[1] : 8 + name + 8 * (w - 1);
            uint64_t val; switch (c.rng.i(0, 5)) { case 0: val = ~0ULL; break; case 1: val = ~0ULL - c.rng.i(0, 64); break; case 2: val = 1ULL << c.rng.i(55, 63); break; case 3: val = c.rng.i(0, 64); break; case 4: val = 0; break; default: val = 0x8000000000000000ULL / std::max<uint64_t>(1, total(v.shape())); }
            memcpy(&b[at], &val, 8); what = S("word at ", at, "=", val);
        } else { at = c.rng.next() % std::min(headEnd, b.size()); b[at] = (char) c.rng.next(); what = S("byte at ", at); }
        b.shrink_to_fit();
        try {
            auto w = MemoryView<T>::deserialize(b);
            size_t tot = 1; bool sane = true; for (size_t s : w.shape()) { if (s && tot > b.size() / s) sane = false; tot *= s; if (tot > b.size()) sane = false; if (!sane) break; }
            c.check(sane || total(w.shape()) == 0, "view-corruption-size", [&] { return what + ": a view larger than its stream was returned"; });
            if (sane && w.shape().size() < 64) { auto e = elements(w); e.reserve(1); std::vector<char> tail(b.begin() + std::min(b.size(), headEnd), b.end()); tail.reserve(1);
                if (w.shape().size() == nd) c.check(memcmp(e.data(), tail.data(), std::min(e.size() * sizeof(T), tail.size())) == 0, "view-corruption-misread", [&] { return what + ": the restored elements are not the stream's data"; }); }
        } catch (const std::bad_alloc &) { ++state()->events; } catch (const std::exception &) { ++state()->events; }
    }
    // another element type is rejected
    bool threw = false; try { if (sizeof(T) == 8) MemoryView<float>::deserialize(buf); else MemoryView<double>::deserialize(buf); } catch (const std::exception &) { threw = true; }
    c.check(threw, "view-type-mismatch", [&] { return std::string("a stream of another element type was accepted"); });
}
SUITE(view_stream, 400, 5000) { if (c.rng.p(.5)) viewCase<int>(c); else if (c.rng.p(.7)) viewCase<double>(c); else viewCase<short>(c); }

HARNESS_MAIN
