// Harness runtime: seeded cases, violation reporting, observation counters, crash attribution.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include "fuzzylite/Headers.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ULL; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : (int) (next() % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); }  // inclusive
    bool chance(double p) { return unit() < p; }
    bool coin() { return next() & 1; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    // a real with at most d decimals
    double dec(double a, double b, int d = 3) { double m = std::pow(10.0, d); return std::floor(real(a, b) * m + 0.5) / m; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below((int) v.size())]; }
    template <typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below((int) i)]); }
};
inline std::string pickS(Rng& r, std::initializer_list<const char*> l) { auto it = l.begin(); std::advance(it, r.below((int) l.size())); return *it; }

std::string jsonEscape(const std::string& s);
std::string num(double x);  // %.17g

struct Violation { std::string key, msg, detail; };

struct Ctx {
    std::string prop;
    uint64_t seed = 1;
    long caseIdx = -1;
    bool verbose = false;   // --only replay
    bool dry = false;       // leak-confirmation rerun: observations are not recorded again
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> distinctSet;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::map<std::string, int> perKey;
    long violationCount = 0;
    void count(const std::string& k, long n = 1) { if (!dry) counters[k] += n; }
    void distinct(uint64_t h) { if (!dry && distinctSet.size() < 400000) distinctSet.insert(h); }
    void distinct(const std::string& s) { distinct(hashStr(s)); }
    bool wantSample() const { return !dry && samples.size() < 2; }
    void sample(const std::string& s) { if (wantSample()) samples.push_back(s.substr(0, 1500)); }
    // key: stable short classification; msg: one line; detail: the witness
    void violation(const std::string& key, const std::string& msg, const std::string& detail = "");
    void note(const std::string& s);  // what is being executed right now (read back after a crash)
};

// Property definition -------------------------------------------------------------------------
struct Property {
    const char* id;
    long quick, thorough;             // number of cases
    void (*run)(Ctx&, Rng&, long);    // one case
    const char* rule;                 // how cases are made / what is non-trivial
    std::vector<std::pair<std::string, long> > require;  // counters that a (quick) run has to reach
    bool leakCheck = true;
    int cpuLimit = 40;                // seconds of CPU per case
    void (*init)(Ctx&) = nullptr;
    bool cold = false;                // the library must not be used before the first case
    typedef std::vector<std::pair<std::string, long> > Req;
    Property(const char* i, long q, long t, void (*f)(Ctx&, Rng&, long), const char* ru, Req rq = Req(), bool leak = true, int cpu = 40, void (*in)(Ctx&) = nullptr)
        : id(i), quick(q), thorough(t), run(f), rule(ru), require(rq), leakCheck(leak), cpuLimit(cpu), init(in) {}
};
extern Property PROPERTY;             // defined by each property file

// numeric helpers ------------------------------------------------------------------------------
const double NaN = std::numeric_limits<double>::quiet_NaN();
const double Inf = std::numeric_limits<double>::infinity();
inline bool same(double a, double b) { return a == b || (a != a && b != b); }       // bit-level up to -0
inline bool close(double a, double b, double eps) {
    if (same(a, b)) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::fabs(a - b) <= eps * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
extern double MACHEPS;                 // the comparison tolerance of the definitions: 1e-6 by default, reset before every case
inline bool mEq(double a, double b) { return a == b || std::fabs(a - b) < MACHEPS || (a != a && b != b); }
inline bool mLt(double a, double b) { return !mEq(a, b) && a < b; }
inline bool mLe(double a, double b) { return mEq(a, b) || a < b; }
inline bool mGt(double a, double b) { return !mEq(a, b) && a > b; }
inline bool mGe(double a, double b) { return mEq(a, b) || a > b; }
// is |a-b| so close to the tolerance that rounding could flip the comparison?
inline bool borderline(double a, double b) { double d = std::fabs(a - b); return d == d && std::fabs(d - MACHEPS) < 0.01 * MACHEPS; }

std::string readFile(const std::string& path);
void writeFile(const std::string& path, const std::string& text);
std::string scratchDir();   // per-process scratch directory (created on demand, removed at exit)

template <typename F> std::string caught(F f, bool* threw = nullptr) {   // "" if no exception; message otherwise
    try { f(); if (threw) *threw = false; return ""; }
    catch (fl::Exception& e) { if (threw) *threw = true; return std::string("fl:") + e.getWhat(); }
    catch (std::exception& e) { if (threw) *threw = true; return std::string("std:") + e.what(); }
}
// The C locale or stream capture: silence std::cout/cerr writes of the library
struct Mute { std::streambuf* o; std::ostringstream sink; Mute() { o = std::cout.rdbuf(sink.rdbuf()); } ~Mute() { std::cout.rdbuf(o); } };
}
#endif
