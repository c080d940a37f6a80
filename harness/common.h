// Shared harness runtime: seeded case generation, violation recording, progress state that
// survives a crash of the code under test, and per-case CPU-time guard.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cxxabi.h>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <exception>
#include <stdexcept>
#include <algorithm>
#include <limits>

namespace H {

typedef long double ld;
// How often each clause of the oracle was evaluated (evidence only).
struct Clauses {
    std::unordered_map<std::string, uint64_t> byName; std::unordered_map<const void *, uint64_t> byLit; std::unordered_map<const void *, std::string> lit;
    const char *suite = nullptr;
    void hit(const char *k) { if (++byLit[k] == 1) lit[k] = k; }
    void hit(const std::string &k) { if (byName.size() < 4000 || byName.count(k)) ++byName[k]; }
    std::map<std::string, uint64_t> all;
    void flush() { if (suite) { for (auto &e : byLit) if (e.second) all[std::string(suite) + "/" + lit[e.first]] += e.second;
            for (auto &e : byName) all[std::string(suite) + "/" + e.first] += e.second; }
        byLit.clear(); byName.clear(); lit.clear(); }
};
inline Clauses &clauses() { static Clauses c; return c; }

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const char *s) {
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) { h ^= (unsigned char) *s; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2))); }
inline uint64_t hd(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); }  // inclusive
    bool p(double q) { return u() < q; }
    double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    template<class V> void shuffle(V &v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
    template<class V> const typename V::value_type &pick(const V &v) { return v[next() % v.size()]; }
};

// Shared with the driver through a file mapping: survives SIGABRT/SEGV of the code under test.
struct State {
    char suite[64];
    uint64_t index;
    uint64_t evaluations;
    uint64_t events;      // oracle comparisons performed
    uint64_t done;
    char note[256];
};

struct Opt {
    uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1;
    std::string startSuite; uint64_t startIndex = 0; bool hasStart = false;
    std::string onlySuite; uint64_t onlyIndex = 0; bool hasOnly = false;
    std::string suiteFilter;
    std::string out; std::string state; double cpuLimit = 40; double scale = 1;
};
inline Opt &opt() { static Opt o; return o; }
inline State *&state() { static State *s = nullptr; return s; }
inline FILE *&outf() { static FILE *f = nullptr; return f; }

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (char ch : s) { unsigned char c = (unsigned char) ch;
        if (c == '"' || c == '\\') { r += '\\'; r += ch; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += ch; }
    return r + "\"";
}

struct Case {
    Rng rng; const char *suite; uint64_t index; std::ostringstream d; bool failed = false; bool thorough;
    uint64_t hash = 0; bool counted = false;
    std::map<std::string, int> &vcount;
    Case(uint64_t seed, const char *s, uint64_t i, std::map<std::string, int> &vc)
        : rng(mix64(mix64(seed * 0x2545F4914F6CDD1DULL + hashStr(s)) + i * 0xD1342543DE82EF95ULL)), suite(s), index(i), thorough(opt().thorough), vcount(vc) { d.precision(17); }
    // Record a violation. `key` names the broken clause and is matched with the known-findings file.
    void fail(const std::string &key, const std::string &msg) {
        failed = true;
        std::string full = std::string(suite) + "/" + key;
        int &n = vcount[full];
        if (++n > 3) return;
        fprintf(outf(), "{\"t\":\"v\",\"suite\":%s,\"index\":%llu,\"key\":%s,\"msg\":%s,\"input\":%s}\n", jstr(suite).c_str(), (unsigned long long) index,
                jstr(full).c_str(), jstr(msg).c_str(), jstr(d.str().substr(0, 6000)).c_str());
        fflush(outf());
    }
    template<class F> bool check(bool ok, const std::string &key, F msgf) { ++state()->events; clauses().hit(key); if (!ok) fail(key, msgf()); return ok; }
    bool check(bool ok, const char *key) { ++state()->events; clauses().hit(key); if (!ok) fail(key, "oracle rejected the observed result"); return ok; }
    // Mark the case as non-trivial with a structural fingerprint of its input.
    void nontrivial(uint64_t h) { counted = true; hash = hcomb(hash, h); }
    void note(const char *s) { strncpy(state()->note, s, sizeof(state()->note) - 1); }
};

// Counters that only describe what a run observed (evidence), never decide anything.
inline std::map<std::string, uint64_t> &stats() { static std::map<std::string, uint64_t> m; return m; }
inline void stat(const std::string &k, uint64_t n = 1) { stats()[k] += n; }

typedef void (*SuiteFn)(Case &);
struct Suite { const char *name; SuiteFn fn; uint64_t quick, thorough; };
inline std::vector<Suite> &suites() { static std::vector<Suite> s; return s; }
struct Reg { Reg(const char *n, SuiteFn f, uint64_t q, uint64_t t) { suites().push_back({n, f, q, t}); } };
#define SUITE(name, quick, thorough) \
    static void suite_##name(H::Case &c); \
    static H::Reg reg_##name(#name, suite_##name, quick, thorough); \
    static void suite_##name(H::Case &c)

template<class... A> std::string S(const A &... a) { std::ostringstream o; o.precision(17); (void) std::initializer_list<int>{((o << a), 0)...}; return o.str(); }

inline void onCpu(int) { _exit(97); }
inline void armCpu(double s) { itimerval t{}; t.it_value.tv_sec = (long) s; t.it_value.tv_usec = (long) ((s - (long) s) * 1e6); setitimer(ITIMER_PROF, &t, nullptr); }

inline int runMain(int argc, char **argv) {
    Opt &o = opt();
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k]; auto nx = [&]() { return std::string(argv[++k]); };
        if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--shard") { o.shard = atoi(nx().c_str()); }
        else if (a == "--nshards") o.nshards = atoi(nx().c_str());
        else if (a == "--start") { o.startSuite = nx(); o.startIndex = strtoull(nx().c_str(), 0, 10); o.hasStart = true; }
        else if (a == "--only") { o.onlySuite = nx(); o.onlyIndex = strtoull(nx().c_str(), 0, 10); o.hasOnly = true; }
        else if (a == "--suite") o.suiteFilter = nx();
        else if (a == "--out") o.out = nx();
        else if (a == "--state") o.state = nx();
        else if (a == "--cpu") o.cpuLimit = atof(nx().c_str());
        else if (a == "--scale") o.scale = atof(nx().c_str());
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 98; }
    }
    outf() = o.out.empty() ? stdout : fopen(o.out.c_str(), "a");
    if (!outf()) return 98;
    if (!o.state.empty()) {
        int fd = open(o.state.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(State))) return 98;
        void *m = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 98;
        state() = (State *) m;
    } else { static State st; state() = &st; }
    signal(SIGPROF, onCpu);
    std::map<std::string, int> vcount;
    bool started = !o.hasStart;
    FILE *hf = o.out.empty() ? nullptr : fopen((o.out + ".hash").c_str(), "ab");
    int samples = 0;
    std::map<std::string, uint64_t> ran;
    for (auto &su : suites()) {
        clauses().flush();
        clauses().suite = su.name;
        if (!o.suiteFilter.empty() && o.suiteFilter != su.name) continue;
        uint64_t total = (uint64_t) std::ceil((o.thorough ? su.thorough : su.quick) * o.scale), first = 0;
        if (su.quick == 1 && su.thorough == 1) total = 1;
        if (o.hasOnly) { if (o.onlySuite != su.name) continue; }
        if (!started) { if (o.startSuite != su.name) continue; started = true; first = o.startIndex; }
        for (uint64_t idx = first; idx < total || (o.hasOnly && idx <= o.onlyIndex); ++idx) {
            if (o.hasOnly) { if (idx != o.onlyIndex) { idx = o.onlyIndex; } }
            else if ((int) (idx % o.nshards) != o.shard) continue;
            strncpy(state()->suite, su.name, sizeof(state()->suite) - 1);
            state()->suite[sizeof(state()->suite) - 1] = 0;
            state()->index = idx;
            Case c(o.seed, su.name, idx, vcount);
            armCpu(o.cpuLimit);
            try { su.fn(c); }
            catch (const std::exception &e) { int st = 0; std::string nm = typeid(e).name(); char *dm = abi::__cxa_demangle(nm.c_str(), nullptr, nullptr, &st); if (dm) nm = dm; free(dm);
                c.fail("exception:" + nm, S("unexpected exception: ", e.what())); }
            catch (...) { c.fail("exception:unknown", "unexpected non-std exception"); }
            armCpu(0);
            ++state()->evaluations;
            ++ran[su.name];
            if (c.counted && hf) { uint64_t h = hcomb(c.hash, hashStr(su.name)); fwrite(&h, 8, 1, hf); }
            if (c.counted && samples < 3 && idx < (uint64_t) o.nshards && !c.d.str().empty()) { ++samples;
                fprintf(outf(), "{\"t\":\"s\",\"suite\":%s,\"index\":%llu,\"input\":%s}\n", jstr(su.name).c_str(), (unsigned long long) idx, jstr(c.d.str().substr(0, 700)).c_str()); fflush(outf()); }
            if (o.hasOnly) break;
        }
        if (hf) fflush(hf);
        samples = 0;
    }
    clauses().flush();
    for (auto &kv : ran) fprintf(outf(), "{\"t\":\"su\",\"key\":%s,\"n\":%llu}\n", jstr(kv.first).c_str(), (unsigned long long) kv.second);
    for (auto &kv : clauses().all) fprintf(outf(), "{\"t\":\"cl\",\"key\":%s,\"n\":%llu}\n", jstr(kv.first).c_str(), (unsigned long long) kv.second);
    state()->done = 1;
    if (hf) fclose(hf);
    for (auto &kv : vcount) fprintf(outf(), "{\"t\":\"c\",\"key\":%s,\"n\":%d}\n", jstr(kv.first).c_str(), kv.second);
    for (auto &kv : stats()) fprintf(outf(), "{\"t\":\"st\",\"key\":%s,\"n\":%llu}\n", jstr(kv.first).c_str(), (unsigned long long) kv.second);
    fflush(outf());
    return 0;
}
} // namespace H

#define HARNESS_MAIN int main(int argc, char **argv) { return H::runMain(argc, argv); }
