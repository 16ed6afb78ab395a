#include "common.hpp"
#include <regex>
using namespace vf;
using fl::Op;
static std::string rstr(Rng& r, const std::string& alphabet, int maxLen) { std::string s; int n = r.below(maxLen + 1); for (int i = 0; i < n; ++i) s += alphabet[r.below((int) alphabet.size())]; return s; }
namespace vf { std::string vecStr(const std::vector<double>& v); }
static double anyNum(Rng& r) {
    switch (r.below(14)) {
        case 0: return NaN; case 1: return Inf; case 2: return -Inf; case 3: return 0.0; case 4: return -0.0;
        case 5: return r.real(-1e-6, 1e-6); case 6: return r.real(-1e9, 1e9); case 7: return r.range(-1000, 1000);
        case 8: return r.dec(-10, 10, r.range(0, 6)); case 9: return std::ldexp(r.real(-1, 1), r.range(-60, 60)); case 10: return r.range(-20, 20) + 0.5;
        default: return r.real(-100, 100);
    }
}
static int lenOf(const char* s) { return (int) strlen(s); }
static void numbers(Ctx& c, Rng& r) {
    for (int k = 0; k < 60; ++k) {
        double x = anyNum(r); int d = r.below(13);
        bool viaGlobal = r.coin(); int old = fuzzylite::fuzzylite::decimals();
        if (viaGlobal) fuzzylite::fuzzylite::setDecimals(d);
        std::string s = viaGlobal ? Op::str(x) : Op::str(x, d);
        fuzzylite::fuzzylite::setDecimals(old);
        c.count("numbers printed");
        c.distinct(s);
        std::string want;
        if (x != x) want = "nan"; else if (std::isinf(x)) want = x < 0 ? "-inf" : "inf"; else { char b[400]; snprintf(b, sizeof b, "%.*f", d, x); want = b; }
        char z[64]; snprintf(z, sizeof z, "%.*f", d, 0.0);
        bool tiny = std::fabs(x) < std::pow(10.0, -d) * (1 + 1e-9);      // below one unit of the last place
        bool ok = s == want || (tiny && (s == z || s == "0"));
        if (std::isfinite(x) && tiny && s != want) c.count("numbers printed as zero");
        if (!ok) { c.violation("str", "the text of " + num(x) + " with " + std::to_string(d) + " decimals is \"" + s + "\" instead of \"" + want + "\""); continue; }
        double back = Op::toScalar(s), ref = x != x ? NaN : std::isinf(x) ? x : strtod(s.c_str(), nullptr);
        if (!same(back, ref)) c.violation("parse-back", "\"" + s + "\" is read as " + num(back) + " instead of " + num(ref));
        if (std::isfinite(x) && std::fabs(back - x) > std::pow(10.0, -d) * (1 + 1e-9) + std::fabs(x) * 1e-15) c.violation("str-accuracy", num(x) + " printed with " + std::to_string(d) + " decimals reads as " + num(back));
        // other formats
        std::ios_base::fmtflags f = r.coin() ? std::ios_base::scientific : std::ios_base::fmtflags(0x0);
        std::string s2 = Op::str(x, d, f); char b2[400]; snprintf(b2, sizeof b2, f == std::ios_base::scientific ? "%.*e" : "%.*g", d, x);
        if (std::isfinite(x) && !tiny && s2 != b2) c.violation("str-format", "the text of " + num(x) + " is \"" + s2 + "\" instead of \"" + b2 + "\" (" + (f == std::ios_base::scientific ? "scientific" : "default") + " format, " + std::to_string(d) + ")");
        int i = r.range(-100000, 100000);
        if (Op::str(i) != std::to_string(i)) c.violation("str-int", "the text of the integer " + std::to_string(i) + " is \"" + Op::str(i) + "\"");
        if (Op::str((std::size_t) (i & 0xffff)) != std::to_string(i & 0xffff)) c.violation("str-int", "the text of a size is \"" + Op::str((std::size_t) (i & 0xffff)) + "\"");
    }
}
static void parsing(Ctx& c, Rng& r) {
    static const std::regex re("[ \\t\\n\\v\\f\\r]*[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?");
    for (int k = 0; k < 60; ++k) {
        std::string s;
        switch (r.below(8)) {
            case 0: s = rstr(r, "0123456789.+-eE ", 8); break;
            case 1: s = Op::str(r.real(-1000, 1000), r.below(9)) + rstr(r, " x.e-+1f", 2); break;
            case 2: s = rstr(r, " \t", 2) + std::to_string(r.range(-99, 99)) + rstr(r, ".0123 ", 3); break;
            case 3: s = pickS(r, {"nan", "inf", "-inf", "+inf", "NaN", "INF", "-nan", "infinity", "nan ", " inf", "inf1", "1inf", "", " ", "-", "+", ".", "e5", "0x10", "1,5", "1_000", "true", "1.0f", "--1", "+-1", "1 2", "1..2", "1e", "1e+", "1.5e3", "1.5e3.2", "0e0", "00012", "+5", "-.5", "5."}); break;
            case 4: { s = rstr(r, "abcdefnixyz01.-", 6); break; }
            case 5: { s = std::to_string(r.below(1000)); if (r.coin()) s.insert(r.below((int) s.size() + 1), 1, (char) r.below(256)); break; }
            default: s = rstr(r, "0123456789", 6) + (r.coin() ? "." : "") + rstr(r, "0123456789", 6) + (r.chance(0.3) ? "e" + std::to_string(r.range(-20, 20)) : ""); break;
        }
        bool isNum = std::regex_match(s, re); if (s.find('\0') != std::string::npos) isNum = false;
        double want = NaN; bool ok = true;
        if (isNum) { want = strtod(s.c_str(), nullptr); ok = std::isfinite(want); } else if (s == "nan") want = NaN; else if (s == "inf") want = Inf; else if (s == "-inf") want = -Inf; else ok = false;
        c.count(ok ? "texts that are numbers" : "texts that are not numbers"); c.distinct(s);
        bool threw; double got = NaN; std::string m = caught([&]() { got = Op::toScalar(s); }, &threw);
        if (threw == ok) c.violation(ok ? "rejects-number" : "accepts-nonnumber", "toScalar(\"" + s + "\") " + (threw ? "throws " + m : "returns " + num(got)));
        else if (ok && !same(got, want)) c.violation("toScalar", "toScalar(\"" + s + "\") is " + num(got) + " instead of " + num(want));
        bool flag = !ok; double alt = r.real(-5, 5), g2 = Op::toScalar(s, alt, &flag);
        if (flag != ok || !same(g2, ok ? want : alt)) c.violation("toScalar-alternative", "toScalar(\"" + s + "\", " + num(alt) + ") is " + num(g2) + " with ok=" + (flag ? "true" : "false"));
        if (!same(Op::toScalar(s, alt), ok ? want : alt)) c.violation("toScalar-alternative", "toScalar(\"" + s + "\", alternative) without a flag differs");
        if (Op::isNumeric(s) != ok) c.violation("isNumeric", "isNumeric(\"" + s + "\") is " + (ok ? "false" : "true"));
        if (threw && m.compare(0, 3, "fl:")) c.violation("exception-type", "toScalar throws " + m);
    }
    // several numbers
    for (int k = 0; k < 10; ++k) {
        std::string s = rstr(r, " \t", 2); std::vector<double> w, wa; bool all = true; int n = r.below(6); double alt = -7.25;
        for (int i = 0; i < n; ++i) {
            bool bad = r.chance(0.12); double v = r.dec(-50, 50, 2); char b[40]; snprintf(b, sizeof b, "%.2f", v);
            s += bad ? pickS(r, {"x", "1.0.0", "3a", "-"}) : std::string(b); s += pickS(r, {" ", "\t", "  ", "\n"});
            all = all && !bad; w.push_back(strtod(b, nullptr)); wa.push_back(bad ? alt : w.back());
        }
        bool threw; std::vector<double> g; caught([&]() { g = Op::toScalars(s); }, &threw);
        if (threw == all) c.violation("toScalars", "toScalars(\"" + s + "\") " + (threw ? "throws" : "accepts a malformed token"));
        else if (all && g != w) c.violation("toScalars", "toScalars(\"" + s + "\") returns other numbers");
        bool flag = !all; g = Op::toScalars(s, alt, &flag);
        if (flag != all || g != wa) c.violation("toScalars-alternative", "toScalars(\"" + s + "\", alternative) differs (ok=" + (flag ? "true)" : "false)"));
    }
}
static int digitP(int ch) { return ch >= '0' && ch <= '9'; }
static int lowerP(int ch) { return ch >= 'a' && ch <= 'f'; }
static void texts(Ctx& c, Rng& r) {
    for (int k = 0; k < 40; ++k) {
        std::string al = k % 3 == 0 ? "ab" : k % 3 == 1 ? "a, " : "abc,;_ \t";
        std::string s = rstr(r, al, 12), d = rstr(r, al, 3), rep = rstr(r, "abXY,", 3);
        c.count("texts transformed"); c.distinct(s + "|" + d + "|" + rep);
        std::string in = "(\"" + s + "\",\"" + d + "\")";
        // split
        for (int ig = 0; ig < 2; ++ig) {
            std::vector<std::string> want;
            if (s.empty() || d.empty()) want.push_back(s);
            else { size_t p = 0; for (;;) { size_t q = s.find(d, p); std::string t = s.substr(p, q == std::string::npos ? q : q - p); if (!(ig && t.empty())) want.push_back(t); if (q == std::string::npos) break; p = q + d.size(); } }
            std::vector<std::string> got = ig && r.coin() ? Op::split(s, d) : Op::split(s, d, ig != 0);
            if (got != want) c.violation("split", "split" + in + " gives " + std::to_string(got.size()) + " parts [" + Op::join(got, "|") + "] instead of [" + Op::join(want, "|") + "]");
            if (!ig && !d.empty() && Op::join(got, d) != s) c.violation("split-join", "joining the parts of split" + in + " gives \"" + Op::join(got, d) + "\"");
        }
        // replace
        if (d.empty()) { if (Op::findReplace(s, d, rep) != s || Op::replaceFirst(s, d, rep) != s) c.violation("replace-nothing", "replacing the empty text changes " + in); }
        if (!d.empty()) {
            std::string all, one; size_t p = 0; bool first = true;
            for (;;) { size_t q = s.find(d, p); if (q == std::string::npos) { all += s.substr(p); break; } all += s.substr(p, q - p) + rep; if (first) { one = s.substr(0, q) + rep + s.substr(q + d.size()); first = false; } p = q + d.size(); }
            if (first) one = s;
            if (Op::findReplace(s, d, rep) != all || Op::findReplace(s, d, rep, true) != all || Op::replaceAll(s, d, rep) != all) c.violation("replace-all", "replacing all in " + in + " by \"" + rep + "\" gives \"" + Op::replaceAll(s, d, rep) + "\" instead of \"" + all + "\"");
            // replacing only the first occurrence keeps the rest of the text
            std::string a = Op::replaceFirst(s, d, rep), b = Op::findReplace(s, d, rep, false);
            if (a != b) c.violation("replace-first", "replaceFirst and findReplace(.., false) disagree on " + in);
            if (a != one) c.violation("replace-first", "replacing the first in " + in + " by \"" + rep + "\" gives \"" + a + "\" instead of \"" + one + "\"");
        }
        // trim
        { std::string ws = " \t\n\v\f\r"; std::string t = rstr(r, " \t\n", 3) + s + rstr(r, " \t\r", 3), w = t; size_t a = w.find_first_not_of(ws); w = a == std::string::npos ? "" : w.substr(a, w.find_last_not_of(ws) - a + 1);
          if (Op::trim(t) != w) c.violation("trim", "trim(\"" + t + "\") is \"" + Op::trim(t) + "\""); }
        // format: keeps matching characters, replaces the others
        { std::string t = rstr(r, "abcxyz0189 ,", 10), w1, w2; for (char ch : t) { w1 += digitP(ch) ? std::string(1, ch) : rep; if (lowerP(ch)) w2 += ch; }
          if (Op::format(t, &digitP, rep) != w1) c.violation("format", "format(\"" + t + "\", digits, \"" + rep + "\") is \"" + Op::format(t, &digitP, rep) + "\"");
          if (Op::format(t, &lowerP) != w2) c.violation("format", "format(\"" + t + "\") is \"" + Op::format(t, &lowerP) + "\""); }
        // validName
        { std::string t = rstr(r, "aZ09_.-+ \t$%é/", 8), w; for (char ch : t) if (ch == '_' || ch == '.' || (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')) w += ch;
          if (t.find_first_not_of(" \t") == std::string::npos) w = "_";
          std::string g = Op::validName(t);
          if (g != w) c.violation("validName", "validName(\"" + t + "\") is \"" + g + "\" instead of \"" + w + "\"");
          if (!g.empty() && Op::validName(g) != g) c.violation("validName", "validName is not idempotent on \"" + g + "\""); }
        // join
        { std::vector<double> v; std::vector<int> vi; int n = r.below(5); std::string w, wi; int dec = r.below(5); fuzzylite::fuzzylite::setDecimals(dec);
          for (int i = 0; i < n; ++i) { v.push_back(r.real(1, 9)); vi.push_back(r.range(-5, 5)); char b[40]; snprintf(b, sizeof b, "%.*f", dec, v.back()); w += (i ? rep : "") + b; wi += (i ? rep : "") + std::to_string(vi.back()); }
          if (Op::join(v, rep) != w) c.violation("join", "join gives \"" + Op::join(v, rep) + "\" instead of \"" + w + "\"");
          if (Op::join(vi, rep) != wi) c.violation("join", "join gives \"" + Op::join(vi, rep) + "\" instead of \"" + wi + "\"");
          if (n >= 3 && Op::join(3, rep, v[0], v[1], v[2]) != Op::join(std::vector<double>(v.begin(), v.begin() + 3), rep)) c.violation("join", "join of listed numbers gives \"" + Op::join(3, rep, v[0], v[1], v[2]) + "\"");
          if (n >= 2 && Op::join(2, rep, vi[0], vi[1]) != Op::join(std::vector<int>(vi.begin(), vi.begin() + 2), rep)) c.violation("join", "join of listed integers differs");
          if (n >= 1 && Op::join(1, rep, v[0]) != Op::join(std::vector<double>(1, v[0]), rep)) c.violation("join", "join of one number differs");
          if (Op::join(3, rep, "p", s.c_str(), "q") != "p" + rep + s + rep + "q") c.violation("join", "join of texts differs");
          fuzzylite::fuzzylite::setDecimals(3); (void) lenOf; }
    }
}
static void comparisons(Ctx& c, Rng& r) {
    for (int k = 0; k < 120; ++k) {
        double eps = r.chance(0.6) ? 1e-6 : std::pow(10.0, -r.range(1, 12)); bool global = r.coin();
        double a = anyNum(r), b = r.chance(0.3) ? anyNum(r) : r.chance(0.3) ? a : a + r.pick(std::vector<double>{0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 2, -2, 10, -10}) * eps;
        double diff = std::fabs(a - b); if (diff == diff && std::fabs(diff - eps) < 1e-3 * eps + 1e-16 * std::max(std::fabs(a), std::fabs(b)) * 4) continue;
        bool eq = a == b || diff < eps || (a != a && b != b);
        if (eq && a != b && a == a) c.count("pairs within the tolerance");
        c.count("pairs compared"); c.distinct(num(a) + num(b));
        struct { const char* n; bool got, want; } q[6];
        double old = fuzzylite::fuzzylite::macheps();
        if (global) fuzzylite::fuzzylite::setMachEps(eps);
        bool g[7];
        if (global || eps == 1e-6) { g[0] = Op::isEq(a, b); g[1] = Op::isLt(a, b); g[2] = Op::isLE(a, b); g[3] = Op::isGt(a, b); g[4] = Op::isGE(a, b); g[5] = Op::isClose(a, b); }
        else { g[0] = Op::isEq(a, b, eps); g[1] = Op::isLt(a, b, eps); g[2] = Op::isLE(a, b, eps); g[3] = Op::isGt(a, b, eps); g[4] = Op::isGE(a, b, eps); g[5] = Op::isClose(a, b, eps); }
        double f[6] = {0, 0, 0, 0, 0, 0}; bool chkF = global || eps == 1e-6;
        if (chkF) { f[0] = Op::eq(a, b); f[1] = Op::lt(a, b); f[2] = Op::le(a, b); f[3] = Op::gt(a, b); f[4] = Op::ge(a, b); f[5] = Op::neq(a, b); }
        bool lo = false, hi = false, lo2 = false; double m = a, M = b;
        bool chkIn = global || eps == 1e-6; double x = r.chance(0.4) ? a : r.chance(0.5) ? b : anyNum(r);
        bool inn[4]; if (chkIn) for (int i = 0; i < 4; ++i) inn[i] = Op::in(x, m, M, i & 1, i & 2);
        fuzzylite::fuzzylite::setMachEps(old); (void) lo; (void) hi; (void) lo2;
        const char* names[] = {"isEq", "isLt", "isLE", "isGt", "isGE", "isClose"}; bool want[] = {eq, !eq && a < b, eq || a < b, !eq && a > b, eq || a > b, eq};
        for (int i = 0; i < 6; ++i) { q[i].n = names[i]; q[i].got = g[i]; q[i].want = want[i]; if (g[i] != want[i]) c.violation(std::string("compare:") + names[i], std::string(names[i]) + "(" + num(a) + "," + num(b) + ") is " + (g[i] ? "true" : "false") + " with tolerance " + num(eps)); }
        bool wf[] = {eq, want[1], want[2], want[3], want[4], !eq};
        const char* fn[] = {"eq", "lt", "le", "gt", "ge", "neq"};
        if (chkF) for (int i = 0; i < 6; ++i) if (f[i] != (wf[i] ? 1.0 : 0.0)) c.violation(std::string("compare:") + fn[i], std::string(fn[i]) + "(" + num(a) + "," + num(b) + ") is " + num(f[i]) + " with tolerance " + num(eps));
        if (chkIn) {
            auto near = [&](double u, double v) { double t = std::fabs(u - v); return t == t && std::fabs(t - eps) < 1e-3 * eps + 1e-15 * std::max(std::fabs(u), std::fabs(v)); };
            auto E = [&](double u, double v) { return u == v || std::fabs(u - v) < eps || (u != u && v != v); };
            if (!near(x, m) && !near(x, M)) for (int i = 0; i < 4; ++i) {
                bool w = ((i & 1) ? E(x, m) || x > m : !E(x, m) && x > m) && ((i & 2) ? E(x, M) || x < M : !E(x, M) && x < M);
                if (inn[i] != w) c.violation("in", "in(" + num(x) + "," + num(m) + "," + num(M) + "," + ((i & 1) ? "true," : "false,") + ((i & 2) ? "true" : "false") + ") is " + (inn[i] ? "true" : "false"));
            }
        }
    }
}
static void arithmetic(Ctx& c, Rng& r) {
    for (int k = 0; k < 60; ++k) {
        double x = anyNum(r), y = anyNum(r);
        c.count("numbers combined"); c.distinct(num(x) + num(y) + "a");
        auto chk = [&](const char* n, double got, double want, double eps = 0) { if (!(eps ? close(got, want, eps) : same(got, want))) c.violation(std::string("arith:") + n, std::string(n) + " of " + num(x) + ", " + num(y) + " is " + num(got) + " instead of " + num(want)); };
        bool un = x != x || y != y;
        chk("min", Op::min(x, y), un ? NaN : x < y ? x : y); chk("max", Op::max(x, y), un ? NaN : x > y ? x : y);
        chk("add", Op::add(x, y), x + y); chk("subtract", Op::subtract(x, y), x - y); chk("multiply", Op::multiply(x, y), x * y); chk("divide", Op::divide(x, y), x / y);
        chk("modulo", Op::modulo(x, y), std::fmod(x, y)); chk("negate", Op::negate(x), -x);
        if (!borderline(x, 1) && !borderline(y, 1)) { chk("and", Op::logicalAnd(x, y), mEq(x, 1) && mEq(y, 1) ? 1 : 0); chk("or", Op::logicalOr(x, y), mEq(x, 1) || mEq(y, 1) ? 1 : 0); chk("not", Op::logicalNot(x), mEq(x, 1) ? 0 : 1); }
        if (x == x && Op::isNaN(x)) c.violation("isNaN", "isNaN is wrong"); 
        if (Op::isNaN(x) != (x != x) || Op::isInf(x) != (std::isinf(x) != 0) || Op::isFinite(x) != (std::isfinite(x) != 0)) c.violation("classify", "isNaN/isInf/isFinite of " + num(x) + " are inconsistent");
        if (std::fabs(x) < 1e15 || x != x) { double w = x != x ? NaN : x > 0 ? std::floor(x) + (x - std::floor(x) >= 0.5 ? 1 : 0) : -(std::floor(-x) + (-x - std::floor(-x) >= 0.5 ? 1 : 0)); double fr = std::fabs(x) - std::floor(std::fabs(x)); if (!(std::fabs(fr - 0.5) < 1e-12 && fr != 0.5)) chk("round", Op::round(x), w); }
        double lo = anyNum(r), hi = anyNum(r); if (lo > hi) std::swap(lo, hi);
        double w = x > hi ? hi : x < lo ? lo : x; double g = Op::bound(x, lo, hi);
        if (!same(g, w)) c.violation("bound", "bound(" + num(x) + "," + num(lo) + "," + num(hi) + ") is " + num(g));
        double f0 = r.dec(-10, 10), f1 = f0 + r.dec(0.5, 10), t0 = r.dec(-10, 10), t1 = t0 + r.dec(0.5, 10), v = r.dec(-20, 20);
        double sc = Op::scale(v, f0, f1, t0, t1), sw = t0 + (v - f0) * (t1 - t0) / (f1 - f0);
        if (!close(sc, sw, 1e-9) || !close(Op::scale(v, f0, f1, t0, t1, false), sw, 1e-9) || !close(Op::scale(v, f0, f1, t0, t1, true), std::min(t1, std::max(t0, sw)), 1e-9)) c.violation("scale", "scale(" + vecStr({v, f0, f1, t0, t1}) + ") is " + num(sc) + " / bounded " + num(Op::scale(v, f0, f1, t0, t1, true)) + " instead of " + num(sw));
        int res = r.range(1, 40); std::vector<double> mp = Op::midpoints(f0, f1, res); bool okm = (int) mp.size() == res; for (int i = 0; okm && i < res; ++i) okm = close(mp[i], f0 + (i + 0.5) * (f1 - f0) / res, 1e-12);
        if (!okm) c.violation("midpoints", "midpoints(" + num(f0) + "," + num(f1) + "," + std::to_string(res) + ") differ from the definition");
    }
    for (int k = 0; k < 10; ++k) {
        std::vector<double> v; int n = r.below(12); long double s = 0; for (int i = 0; i < n; ++i) { v.push_back(r.real(-100, 100)); s += v.back(); }
        double mean = n ? (double) (s / n) : NaN; long double q = 0; for (double d : v) q += (d - (long double) mean) * (d - (long double) mean);
        double var = n == 0 ? NaN : n == 1 ? 0 : (double) (q / (n - 1)), sd = n == 0 ? NaN : std::sqrt(var);
        c.count("samples summarised");
        std::string in = vecStr(v);
        if (!close(Op::sum(v), (double) s, 1e-12)) c.violation("sum", "sum of " + in + " is " + num(Op::sum(v)));
        if (!close(Op::mean(v), mean, 1e-12)) c.violation("mean", "mean of " + in + " is " + num(Op::mean(v)));
        if (!close(Op::variance(v), var, 1e-9) || !close(Op::variance(v, mean), var, 1e-9)) c.violation("variance", "variance of " + in + " is " + num(Op::variance(v)) + " instead of " + num(var));
        if (!close(Op::standardDeviation(v), sd, 1e-9) || !close(Op::standardDeviation(v, mean), sd, 1e-9)) c.violation("stddev", "standard deviation of " + in + " is " + num(Op::standardDeviation(v)) + " instead of " + num(sd));
    }
    for (int k = 0; k < 6; ++k) {
        int n = r.range(1, 4); std::vector<int> mn, mxv, x; long total = 1; for (int i = 0; i < n; ++i) { mn.push_back(r.range(-2, 2)); mxv.push_back(mn.back() + r.below(5)); total *= mxv.back() - mn.back() + 1; }
        x = mn; long seen = 1; bool ok = true; std::vector<int> prev = x; std::vector<int> mn0 = mn, mx0 = mxv;
        while (seen <= total + 1 && Op::increment(x, mn, mxv)) { ++seen; if (!(prev < x)) ok = false; for (int i = 0; i < n; ++i) if (x[i] < mn[i] || x[i] > mxv[i]) ok = false; prev = x; }
        c.count("combinations enumerated", seen);
        if (!ok || seen != total || x != mn0 || mn != mn0 || mxv != mx0) c.violation("increment", "enumerating " + std::to_string(total) + " combinations visits " + std::to_string(seen) + (ok ? "" : " out of order") + (x != mn0 ? " and does not end at the beginning" : ""));
        std::vector<int> e; if (Op::increment(e, mn, mxv)) c.violation("increment", "an empty combination increments");
        // a given position: the positions after it keep their value
        std::vector<int> y = mn; int pos = r.below(n); long cnt = 1, tp = 1; for (int i = 0; i <= pos; ++i) tp *= mxv[i] - mn[i] + 1;
        bool keep = true; while (cnt <= tp + 1 && Op::increment(y, pos, mn, mxv)) { ++cnt; for (int i = pos + 1; i < n; ++i) keep = keep && y[i] == mn[i]; }
        if (cnt != tp || !keep) c.violation("increment-position", "enumerating from position " + std::to_string(pos) + " visits " + std::to_string(cnt) + " of " + std::to_string(tp));
    }
}
namespace vf { std::string vecStr(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + num(v[i]); return s + "]"; } }
static void run(Ctx& c, Rng& r, long) { numbers(c, r); parsing(c, r); texts(c, r); comparisons(c, r); arithmetic(c, r); }
Property vf::PROPERTY("P27", 2500, 60000, run,
    "each case prints and parses 60 numbers with 0..12 decimals and three formats, parses 60 texts (numbers, near-numbers, arbitrary bytes), transforms 40 texts, compares 120 pairs around the tolerance, and computes 60 arithmetic, 10 statistics and 6 enumeration examples; distinct inputs are counted",
    {{"numbers printed", 50000}, {"texts that are numbers", 10000}, {"texts that are not numbers", 10000}, {"texts transformed", 30000}, {"pairs compared", 50000}, {"pairs within the tolerance", 2000}, {"combinations enumerated", 10000}});
