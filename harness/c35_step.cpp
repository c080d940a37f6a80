// C35: STEP exports are parsed with an independent ISO 10303-21 reader and compared with the exported geometry.
#include "common.h"
#include "cmmcore/nurbs.h"
#include "ref.h"
#include "gen.h"
using namespace H;
using namespace cmmcore;

struct Val { enum K { Int, Real, Ref, Enum, Str, List, Null } k = Null; long long i = 0; double r = 0; std::string s; std::vector<Val> l; };
struct Ent { int id; std::string name; std::vector<Val> args; };
struct Err { std::string m; };
struct Parser {
    const std::string &t; size_t p = 0;
    explicit Parser(const std::string &s) : t(s) {}
    void ws() { while (p < t.size()) { if (isspace((unsigned char) t[p])) ++p; else if (t.compare(p, 2, "/*") == 0) { size_t e = t.find("*/", p + 2); if (e == std::string::npos) throw Err{"unterminated comment"}; p = e + 2; } else break; } }
    bool is(char ch) { ws(); return p < t.size() && t[p] == ch; }
    void need(char ch) { ws(); if (p >= t.size() || t[p] != ch) throw Err{S("expected '", ch, "' at offset ", p, " near \"", t.substr(p > 60 ? p - 60 : 0, 80), "\"")}; ++p; }
    std::string word() { ws(); size_t b = p; while (p < t.size() && (isupper((unsigned char) t[p]) || isdigit((unsigned char) t[p]) || t[p] == '_')) ++p; if (b == p) throw Err{S("expected a keyword near \"", t.substr(b, 40), "\"")}; return t.substr(b, p - b); }
    int number() { size_t b = p; while (p < t.size() && isdigit((unsigned char) t[p])) ++p; if (b == p || p - b > 9) throw Err{"bad entity number"}; return atoi(t.substr(b, p - b).c_str()); }
    Val value() {
        ws(); Val v; if (p >= t.size()) throw Err{"unexpected end"};
        char ch = t[p];
        if (ch == '(') { ++p; v.k = Val::List; if (is(')')) { ++p; return v; } while (true) { v.l.push_back(value()); if (is(',')) { ++p; continue; } need(')'); return v; } }
        if (ch == '#') { ++p; v.k = Val::Ref; v.i = number(); return v; }
        if (ch == '\'') { ++p; v.k = Val::Str; while (true) { if (p >= t.size()) throw Err{"unterminated string"}; if (t[p] == '\'') { if (p + 1 < t.size() && t[p + 1] == '\'') { v.s += '\''; p += 2; continue; } ++p; return v; } v.s += t[p++]; } }
        if (ch == '.') { ++p; v.k = Val::Enum; v.s = word(); if (p >= t.size() || t[p] != '.') throw Err{"unterminated enumeration"}; ++p; return v; }
        if (ch == '$' || ch == '*') { ++p; return v; }
        size_t b = p; if (t[p] == '+' || t[p] == '-') ++p; size_t d = p; while (p < t.size() && isdigit((unsigned char) t[p])) ++p;
        if (d == p) throw Err{S("expected a value near \"", t.substr(b, 40), "\"")};
        if (p < t.size() && t[p] == '.') {
            ++p; while (p < t.size() && isdigit((unsigned char) t[p])) ++p;
            if (p < t.size() && t[p] == 'E') { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; size_t e = p; while (p < t.size() && isdigit((unsigned char) t[p])) ++p; if (e == p) throw Err{"bad exponent"}; }
            v.k = Val::Real; v.r = strtod(t.substr(b, p - b).c_str(), nullptr);
        } else { v.k = Val::Int; v.i = atoll(t.substr(b, p - b).c_str()); v.r = (double) v.i; }
        ws(); if (p < t.size() && t[p] != ',' && t[p] != ')') throw Err{S("malformed number near \"", t.substr(b, 40), "\"")};
        return v;
    }
    Ent entity() { Ent e; need('#'); e.id = number(); need('='); e.name = word(); Val a = value(); if (a.k != Val::List) throw Err{"entity without arguments"}; e.args = a.l; need(';'); return e; }
};
typedef std::map<int, Ent> Model;
static Model parseEntities(Parser &p, const std::function<bool()> &end) { Model m; while (!end()) { Ent e = p.entity(); if (m.count(e.id)) throw Err{S("entity #", e.id, " is defined twice")}; m[e.id] = e; } return m; }
static void refs(const Val &v, std::vector<int> &out) { if (v.k == Val::Ref) out.push_back((int) v.i); for (auto &x : v.l) refs(x, out); }
static void resolve(const Model &m) { for (auto &kv : m) { std::vector<int> r; for (auto &a : kv.second.args) refs(a, r); for (int x : r) if (!m.count(x)) throw Err{S("#", kv.first, " ", kv.second.name, " refers to #", x, ", which is not written")}; } }
static vec3 point(const Model &m, const Val &v) {
    if (v.k != Val::Ref) throw Err{"a point reference was expected"};
    const Ent &e = m.at((int) v.i); if (e.name != "CARTESIAN_POINT" || e.args.size() != 2 || e.args[1].l.size() != 3) throw Err{S("#", e.id, " ", e.name, " is not a 3D point")};
    for (auto &x : e.args[1].l) if (x.k != Val::Real) throw Err{S("#", e.id, " has a coordinate that is not a REAL")};
    return vec3(e.args[1].l[0].r, e.args[1].l[1].r, e.args[1].l[2].r);
}
// lists of a spline entity by content: integer lists are multiplicities, real lists knots, real (grid) last is the weights
struct Lists { std::vector<std::vector<int>> mult; std::vector<std::vector<double>> real; const Val *refsList = nullptr; const Val *grid = nullptr; const Val *wgrid = nullptr; std::vector<int> ints; };
static Lists lists(const Ent &e) {
    Lists o;
    for (auto &a : e.args) {
        if (a.k == Val::Int) o.ints.push_back((int) a.i);
        if (a.k != Val::List || a.l.empty()) continue;
        auto k = a.l[0].k; for (auto &x : a.l) if (x.k != k) throw Err{S("#", e.id, " has a list of mixed types")};
        if (k == Val::Ref) o.refsList = &a;
        else if (k == Val::List) { if (!a.l[0].l.empty() && a.l[0].l[0].k == Val::Ref) o.grid = &a; else o.wgrid = &a; }
        else if (k == Val::Int) { std::vector<int> v; for (auto &x : a.l) v.push_back((int) x.i); o.mult.push_back(v); }
        else if (k == Val::Real) { std::vector<double> v; for (auto &x : a.l) v.push_back(x.r); o.real.push_back(v); }
    }
    return o;
}
static std::vector<double> expand(const std::vector<double> &k, const std::vector<int> &m, const char *w) {
    if (k.size() != m.size()) throw Err{S(w, ": ", k.size(), " knots, ", m.size(), " multiplicities")};
    std::vector<double> o; for (size_t i = 0; i < k.size(); ++i) { if (i && !(k[i] > k[i - 1])) throw Err{S(w, ": knots do not increase")}; if (m[i] < 1) throw Err{S(w, ": multiplicity ", m[i])}; for (int q = 0; q < m[i]; ++q) o.push_back(k[i]); }
    return o;
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-15 * std::max(std::fabs(a), std::fabs(b)); }
static bool sameKnots(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return false; return true; }
static R::Curve curveOf(const Model &m, int id) {
    const Ent &e = m.at(id); if (e.name.find("B_SPLINE_CURVE") == std::string::npos) throw Err{S("#", id, " ", e.name, " is not a spline curve")};
    Lists L = lists(e); if (L.ints.size() != 1 || L.mult.size() != 1 || L.real.size() != 2 || !L.refsList) throw Err{S("#", id, " spline curve has not degree, points, multiplicities, knots and weights")};
    R::Curve c; c.p = L.ints[0]; c.U = expand(L.real[0], L.mult[0], "curve"); auto &w = L.real[1]; if (w.size() != L.refsList->l.size()) throw Err{S("#", id, ": ", w.size(), " weights for ", L.refsList->l.size(), " points")};
    for (size_t i = 0; i < w.size(); ++i) { vec3 q = point(m, L.refsList->l[i]); c.P.push_back({(ld) q.x * w[i], (ld) q.y * w[i], (ld) q.z * w[i], (ld) w[i]}); }
    if (c.U.size() != c.P.size() + c.p + 1) throw Err{S("#", id, ": ", c.U.size(), " knots for ", c.P.size(), " points of degree ", c.p)};
    return c;
}

static void checkCurve(Case &c, const Model &m, int id, const NURBSCurve &k) {
    R::Curve r = curveOf(m, id);
    c.check(r.p == k.get_degree(), "curve-degree", [&] { return S("degree ", r.p, " instead of ", k.get_degree()); });
    c.check(sameKnots(r.U, k.knots), "curve-knots", [&] { return std::string("exported knots differ"); });
    bool ok = r.P.size() == k.control_points.size();
    for (size_t i = 0; ok && i < r.P.size(); ++i) { auto &q = k.control_points[i]; ok = near((double) (r.P[i].x / r.P[i].w), q.x / q.w) && near((double) (r.P[i].y / r.P[i].w), q.y / q.w) && near((double) (r.P[i].z / r.P[i].w), q.z / q.w) && near((double) r.P[i].w, q.w); }
    c.check(ok, "curve-points", [&] { return std::string("exported control points or weights differ"); });
}
static void checkSurface(Case &c, const Model &m, int id, const NURBSSurface &s) {
    const Ent &e = m.at(id);
    if (!c.check(e.name.find("B_SPLINE_SURFACE") != std::string::npos, "surface-id", [&] { return S("the returned id #", id, " is a ", e.name); })) return;
    Lists L = lists(e);
    if (!c.check(L.ints.size() == 2 && L.mult.size() == 2 && L.real.size() == 2 && L.grid && L.wgrid, "surface-entity", [&] { return std::string("the spline surface lacks degrees, grid, knots, multiplicities or weights"); })) return;
    c.check(L.ints[0] == s._degree[0] && L.ints[1] == s._degree[1], "surface-degree", [&] { return S("degrees ", L.ints[0], ",", L.ints[1]); });
    c.check(sameKnots(expand(L.real[0], L.mult[0], "u"), s._knots_u), "surface-knots-u", [&] { return std::string("u knots differ"); });
    c.check(sameKnots(expand(L.real[1], L.mult[1], "v"), s._knots_v), "surface-knots-v", [&] { return std::string("v knots differ"); });
    bool ok = L.grid->l.size() == s._size[0] && L.wgrid->l.size() == s._size[0]; std::string why = "grid size";
    for (size_t i = 0; ok && i < s._size[0]; ++i) { ok = L.grid->l[i].l.size() == s._size[1] && L.wgrid->l[i].l.size() == s._size[1];
        for (size_t j = 0; ok && j < s._size[1]; ++j) { vec3 q = point(m, L.grid->l[i].l[j]); auto &w = L.wgrid->l[i].l[j]; const vec4 &p = s._control_points[i][j];
            ok = w.k == Val::Real && near(w.r, p.w) && near(q.x, p.x / p.w) && near(q.y, p.y / p.w) && near(q.z, p.z / p.w); if (!ok) why = S("point ", i, ",", j, " (", q.x, ",", q.y, ",", q.z, ") w ", w.r, " instead of (", p.x / p.w, ",", p.y / p.w, ",", p.z / p.w, ") w ", p.w); } }
    c.check(ok, "surface-points", [&] { return why; });
    // boundary: four edges, each the surface's boundary curve, running between its vertices and forming a closed loop
    R::Surf ref = G::toRef(s); ld sc = G::scaleOf(ref);
    std::vector<const Ent *> edges; std::function<void(int, int)> walk = [&](int at, int depth) { const Ent &x = m.at(at); if (x.name == "EDGE_CURVE") { edges.push_back(&x); return; } if (depth > 4) return; std::vector<int> r; for (auto &a : x.args) refs(a, r); for (int y : r) walk(y, depth + 1); };
    bool found = false;
    for (auto &kv : m) if (kv.second.name == "ADVANCED_FACE") { std::vector<int> r; for (auto &a : kv.second.args) refs(a, r); if (std::find(r.begin(), r.end(), id) == r.end()) continue; found = true; for (int y : r) if (y != id) walk(y, 0); }
    if (!c.check(found && edges.size() == 4, "face-edges", [&] { return S("the face on the surface has ", edges.size(), " edges"); })) return;
    ld u0 = s._knots_u[s._degree[0]], u1 = s._knots_u[s._size[0]], v0 = s._knots_v[s._degree[1]], v1 = s._knots_v[s._size[1]];
    std::set<int> used; vec3 prev, first;
    for (int k = 0; k < 4; ++k) {
        const Ent &x = *edges[k]; std::vector<int> r; for (auto &a : x.args) refs(a, r); if (r.size() != 3) throw Err{"an edge does not have two vertices and a curve"};
        bool fwd = x.args.back().s == "T"; R::Curve q = curveOf(m, r[2]);
        auto vtx = [&](int vid) { const Ent &v = m.at(vid); if (v.name != "VERTEX_POINT") throw Err{S("#", vid, " is not a vertex")}; std::vector<int> rr; for (auto &a : v.args) refs(a, rr); Val pv; pv.k = Val::Ref; pv.i = rr.at(0); return point(m, pv); };
        vec3 a = vtx(r[0]), b = vtx(r[1]); ld t0 = q.U[q.p], t1 = q.U[q.P.size()];
        R::P3 qa = R::eval(q, fwd ? t0 : t1), qb = R::eval(q, fwd ? t1 : t0);
        c.check(G::gap(a, qa) <= 1e-9L * sc && G::gap(b, qb) <= 1e-9L * sc, "edge-vertices", [&] { return S("edge ", k, " runs from ", G::str(qa), " to ", G::str(qb), " but its vertices are ", G::str(a), " and ", G::str(b)); });
        if (k) c.check(G::gap(prev, a) <= 1e-9L * sc, "edge-loop", [&] { return S("edge ", k, " starts at ", G::str(a), ", the one before ends at ", G::str(prev)); }); else first = a;
        prev = b;
        int which = -1; for (int w = 0; w < 4 && which < 0; ++w) { if (used.count(w)) continue; bool same = true; for (int f = 0; f <= 12 && same; ++f) { ld fr = f / 12.0L; bool alongU = w >= 2; ld t = t0 + (t1 - t0) * fr, su = alongU ? u0 + (u1 - u0) * fr : (w == 0 ? u0 : u1), sv = alongU ? (w == 2 ? v0 : v1) : v0 + (v1 - v0) * fr; same = (R::eval(q, t) - R::eval(ref, su, sv)).norm() <= 1e-9L * sc; } if (same) which = w; }
        c.check(which >= 0, "edge-curve", [&] { return S("edge ", k, " does not follow a boundary of the surface"); });
        used.insert(which);
    }
    c.check(G::gap(prev, first) <= 1e-9L * sc, "edge-loop", [&] { return std::string("the edge loop does not close"); });
}
static NURBSSurface anySurface(Rng &r) {
    G::SurfOpt o; o.open = .15; NURBSSurface s = G::surface(r, o);
    double f = r.p(.5) ? 1 : std::pow(10.0, r.i(-9, 9));
    if (f != 1) for (auto &row : s._control_points) for (auto &q : row) { q.x *= f; q.y *= f; q.z *= f; }
    if (r.p(.2)) { double w = std::pow(10.0, r.i(-4, 4)); for (auto &row : s._control_points) for (auto &q : row) { q.x *= w; q.y *= w; q.z *= w; q.w *= w; } }
    if (r.p(.3)) { double a = r.uni(-5, 5), b = std::pow(10.0, r.i(-9, 4)); for (double &u : s._knots_u) u = a + u * b; bool ok = true; std::set<double> d(s._knots_u.begin(), s._knots_u.end()); ok = d.size() >= 2; if (!ok) for (double &u : s._knots_u) u = (u - a); }
    if (r.p(.2)) for (auto &q : s._control_points[0]) q = s._control_points[0][0];   // a pole
    return NURBSSurface(s._control_points, s._degree, s._knots_u, s._knots_v);
}
template<class F> static void guarded(Case &c, F f) { try { f(); } catch (const Err &e) { c.fail("malformed", e.m); } catch (const std::out_of_range &e) { c.fail("malformed", S("dangling reference: ", e.what())); } }

SUITE(surface, 1200, 20000) {
    NURBSSurface s = anySurface(c.rng); G::describe(c, s); c.nontrivial(G::fp(s));
    int id0 = c.rng.p(.3) ? 1 : c.rng.i(1, 100000), id = id0; std::ostringstream out; int sid = s.toSTEP(out, id);
    std::string txt = out.str();
    guarded(c, [&] {
        Parser p(txt); Model m = parseEntities(p, [&] { p.ws(); return p.p >= txt.size(); }); resolve(m);
        ++state()->events;
        c.check(!m.empty() && m.begin()->first >= id0 && m.rbegin()->first < id, "id-range", [&] { return S("ids ", m.begin()->first, "..", m.rbegin()->first, " for the counter going from ", id0, " to ", id); });
        checkSurface(c, m, sid, s);
    });
}
SUITE(several, 300, 4000) { // several exports share a stream and the counter
    std::vector<NURBSSurface> ss; std::vector<NURBSCurve> cs; std::vector<int> sid, cid; std::ostringstream out; int id = c.rng.i(1, 50); uint64_t h = 1; std::string order;
    for (int k = c.rng.i(2, 4); k > 0; --k) { if (c.rng.p(.5)) { ss.push_back(anySurface(c.rng)); sid.push_back(ss.back().toSTEP(out, id)); h = hcomb(h, G::fp(ss.back())); order += 's'; }
        else { G::CurveOpt o; o.open = .15; cs.push_back(G::curve(c.rng, o)); cid.push_back(cs.back().toSTEP(out, id)); h = hcomb(h, G::fp(cs.back())); order += 'c'; } }
    c.d << "exports " << order; c.nontrivial(h); std::string txt = out.str();
    guarded(c, [&] { Parser p(txt); Model m = parseEntities(p, [&] { p.ws(); return p.p >= txt.size(); }); resolve(m); ++state()->events;
        for (size_t k = 0; k < ss.size(); ++k) checkSurface(c, m, sid[k], ss[k]);
        for (size_t k = 0; k < cs.size(); ++k) checkCurve(c, m, cid[k], cs[k]); });
}
SUITE(curve, 1000, 15000) {
    G::CurveOpt o; o.maxDeg = 6; o.open = .15; NURBSCurve k = c.rng.p(.85) ? G::curve(c.rng, o) : [&] { int p = c.rng.i(2, 4), n = p + 2 + c.rng.i(0, 4); std::vector<vec3> q; for (int i = 0; i < n; ++i) q.push_back(vec3(c.rng.uni(-5, 5), c.rng.uni(-5, 5), c.rng.uni(-5, 5))); return NURBSCurve(q, p, true); }();
    if (c.rng.p(.3)) { double f = std::pow(10.0, c.rng.i(-12, 12)); auto cp = k.control_points; for (auto &q : cp) { q.x *= f; q.y *= f; q.z *= f; } k = NURBSCurve(cp, k.get_degree(), k.knots, false); }
    G::describe(c, k); c.nontrivial(G::fp(k)); int id = c.rng.i(1, 1000); std::ostringstream out; int cid = k.toSTEP(out, id); std::string txt = out.str();
    guarded(c, [&] { Parser p(txt); Model m = parseEntities(p, [&] { p.ws(); return p.p >= txt.size(); }); resolve(m); c.check(m.count(cid), "curve-id", [&] { return std::string("the returned id is not written"); }); checkCurve(c, m, cid, k); });
}
SUITE(file, 300, 3000) {
    NURBSSurface s = anySurface(c.rng); G::describe(c, s); c.nontrivial(G::fp(s)); std::string fn = S("c35_", getpid(), ".step");
    if (c.rng.p(.5)) { std::ofstream o(fn); o << std::string(200000, 'x'); }
    s.writeSTEPFile(fn); std::ifstream f(fn); std::string txt((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); unlink(fn.c_str());
    guarded(c, [&] {
        Parser p(txt); auto lit = [&](const char *w) { p.ws(); size_t n = strlen(w); if (txt.compare(p.p, n, w)) throw Err{S("expected ", w, " near \"", txt.substr(p.p, 40), "\"")}; p.p += n; };
        lit("ISO-10303-21"); p.need(';'); lit("HEADER"); p.need(';'); std::vector<std::string> heads; for (int k = 0; k < 3; ++k) { heads.push_back(p.word()); Val v = p.value(); if (v.k != Val::List) throw Err{"header entity without arguments"}; p.need(';'); }
        c.check(heads == std::vector<std::string>({"FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"}), "header", [&] { return S(heads[0], " ", heads[1], " ", heads[2]); });
        lit("ENDSEC"); p.need(';'); lit("DATA"); p.need(';'); Model m = parseEntities(p, [&] { p.ws(); return txt.compare(p.p, 6, "ENDSEC") == 0; }); lit("ENDSEC"); p.need(';'); lit("END-ISO-10303-21"); p.need(';'); p.ws(); if (p.p != txt.size()) throw Err{"text behind the end of the file"};
        resolve(m); int sid = -1; for (auto &kv : m) if (kv.second.name.find("B_SPLINE_SURFACE") != std::string::npos) { c.check(sid < 0, "one-surface", [&] { return std::string("two spline surfaces in one file"); }); sid = kv.first; }
        if (sid >= 0) checkSurface(c, m, sid, s); else c.fail("no-surface", "the file holds no spline surface");
    });
    bool threw = false; try { s.writeSTEPFile("no_such_dir/x.step"); } catch (const std::exception &) { threw = true; }
    c.check(threw, "unwritable-file", [&] { return std::string("an unwritable path was not reported"); });
}
HARNESS_MAIN
