// Reference definitions of norms, hedges and linguistic terms, written from their mathematical
// definitions (not from the library's code). Plain data in, numbers out.
#ifndef VF_DEFS_HPP
#define VF_DEFS_HPP
#include "common.hpp"
namespace vf {
// ---- norms -------------------------------------------------------------------------------------
static const char* const TNORMS[] = {"AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "Minimum", "NilpotentMinimum"};
static const char* const SNORMS[] = {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
inline double mn(double a, double b) { return (a != a || b != b) ? NaN : (a < b ? a : b); }
inline double mx(double a, double b) { return (a != a || b != b) ? NaN : (a > b ? a : b); }
// `snap`: comparisons that decide a discontinuity treat values within the library's tolerance as equal
inline double normDef(const std::string& n, double a, double b) {
    if (a != a || b != b) return NaN;
    if (n == "AlgebraicProduct") return a * b;
    if (n == "BoundedDifference") return mx(0.0, a + b - 1.0);
    if (n == "DrasticProduct") return mEq(mx(a, b), 1.0) ? mn(a, b) : 0.0;
    if (n == "EinsteinProduct") return a * b / (2.0 - (a + b - a * b));
    if (n == "HamacherProduct") return mEq(a + b, 0.0) ? 0.0 : a * b / (a + b - a * b);
    if (n == "Minimum") return mn(a, b);
    if (n == "NilpotentMinimum") return mGt(a + b, 1.0) ? mn(a, b) : 0.0;
    if (n == "AlgebraicSum") return a + b - a * b;
    if (n == "BoundedSum") return mn(1.0, a + b);
    if (n == "DrasticSum") return mEq(mn(a, b), 0.0) ? mx(a, b) : 1.0;
    if (n == "EinsteinSum") return (a + b) / (1.0 + a * b);
    if (n == "HamacherSum") return mEq(a * b, 1.0) ? 1.0 : (a + b - 2.0 * a * b) / (1.0 - a * b);
    if (n == "Maximum") return mx(a, b);
    if (n == "NilpotentMaximum") return mLt(a + b, 1.0) ? mx(a, b) : 1.0;
    if (n == "NormalizedSum") return (a + b) / mx(1.0, a + b);
    if (n == "UnboundedSum") return a + b;
    return NaN;
}
inline bool normBorderline(const std::string& n, double a, double b) {
    if (n == "DrasticProduct") return borderline(mx(a, b), 1.0);
    if (n == "NilpotentMinimum" || n == "NilpotentMaximum") return borderline(a + b, 1.0);
    if (n == "DrasticSum") return borderline(mn(a, b), 0.0);
    if (n == "HamacherProduct") return borderline(a + b, 0.0);
    if (n == "HamacherSum") return borderline(a * b, 1.0);
    return false;
}
// ---- hedges ------------------------------------------------------------------------------------
static const char* const HEDGES[] = {"any", "extremely", "not", "seldom", "somewhat", "very"};
inline double hedgeDef(const std::string& h, double x) {
    if (h == "any") return 1.0;
    if (h == "extremely") return x <= 0.5 ? 2.0 * x * x : 1.0 - 2.0 * (1.0 - x) * (1.0 - x);   // continuous at 1/2
    if (h == "not") return 1.0 - x;
    if (h == "seldom") return x <= 0.5 ? std::sqrt(0.5 * x) : 1.0 - std::sqrt(0.5 * (1.0 - x));
    if (h == "somewhat") return std::sqrt(x);
    if (h == "very") return x * x;
    return NaN;
}
// ---- terms -------------------------------------------------------------------------------------
struct FormulaAst;
struct TermSpec {
    std::string cls, name;
    std::vector<double> p;      // parameters in the order of the constructor / configure text
    double height = 1.0;
    std::string formula;        // Function only (library syntax)
    std::shared_ptr<FormulaAst> ast;
};
static const char* const SHAPES[] = {"Bell", "Binary", "Concave", "Cosine", "Gaussian", "GaussianProduct", "PiShape", "Ramp", "Rectangle", "Sigmoid",
                                     "SigmoidDifference", "SigmoidProduct", "Spike", "SShape", "Trapezoid", "Triangle", "ZShape", "Discrete"};
inline double sq(double x) { return x * x; }
inline double sshape(double x, double s, double e) {
    if (x <= s) return 0.0;
    if (x >= e) return 1.0;
    double m = s + (e - s) / 2.0;
    return x <= m ? 2.0 * sq((x - s) / (e - s)) : 1.0 - 2.0 * sq((e - x) / (e - s));
}
inline double logistic(double x, double i, double s) { return 1.0 / (1.0 + std::exp(-s * (x - i))); }
// exact mathematical definition with unit height; x is not NaN
inline double unitDef(const TermSpec& t, double x) {
    const std::vector<double>& p = t.p; const std::string& c = t.cls;
    if (c == "Bell") return 1.0 / (1.0 + std::pow(std::fabs((x - p[0]) / p[1]), 2.0 * p[2]));
    if (c == "Binary") { if (p[1] > p[0]) return x >= p[0] ? 1.0 : 0.0; if (p[1] < p[0]) return x <= p[0] ? 1.0 : 0.0; return 0.0; }
    if (c == "Concave") {
        double i = p[0], e = p[1];
        if (i <= e) return x < e ? (e - i) / (2.0 * e - i - x) : 1.0;
        return x > e ? (i - e) / (i - 2.0 * e + x) : 1.0;
    }
    if (c == "Cosine") return std::fabs(x - p[0]) > p[1] / 2.0 ? 0.0 : 0.5 * (1.0 + std::cos(2.0 * M_PI * (x - p[0]) / p[1]));
    if (c == "Gaussian") return std::exp(-sq(x - p[0]) / (2.0 * sq(p[1])));
    if (c == "GaussianProduct") {
        double l = x < p[0] ? std::exp(-sq(x - p[0]) / (2.0 * sq(p[1]))) : 1.0;
        double r = x > p[2] ? std::exp(-sq(x - p[2]) / (2.0 * sq(p[3]))) : 1.0;
        return l * r;
    }
    if (c == "PiShape") return sshape(x, p[0], p[1]) * (1.0 - sshape(x, p[2], p[3]));
    if (c == "Ramp") {
        if (mEq(p[0], p[1])) return NaN;
        if (p[0] < p[1]) return x <= p[0] ? 0.0 : x >= p[1] ? 1.0 : (x - p[0]) / (p[1] - p[0]);
        return x >= p[0] ? 0.0 : x <= p[1] ? 1.0 : (p[0] - x) / (p[0] - p[1]);
    }
    if (c == "Rectangle") return x >= p[0] && x <= p[1] ? 1.0 : 0.0;
    if (c == "Sigmoid") return logistic(x, p[0], p[1]);
    if (c == "SigmoidDifference") return std::fabs(logistic(x, p[0], p[1]) - logistic(x, p[3], p[2]));   // left rising falling right
    if (c == "SigmoidProduct") return logistic(x, p[0], p[1]) * logistic(x, p[3], p[2]);
    if (c == "Spike") return std::exp(-std::fabs(10.0 / p[1] * (x - p[0])));
    if (c == "SShape") return sshape(x, p[0], p[1]);
    if (c == "ZShape") return 1.0 - sshape(x, p[0], p[1]);
    if (c == "Trapezoid") {
        double a = p[0], b = p[1], cc = p[2], d = p[3];
        if (x < a || x > d) return 0.0;
        if (x < b) return a == -Inf ? 1.0 : (x - a) / (b - a);
        if (x <= cc) return 1.0;
        return d == Inf ? 1.0 : (d - x) / (d - cc);
    }
    if (c == "Triangle") {
        double a = p[0], b = p[1], cc = p[2];
        if (x < a || x > cc) return 0.0;
        if (x == b) return 1.0;
        if (x < b) return a == -Inf ? 1.0 : (x - a) / (b - a);
        return cc == Inf ? 1.0 : (cc - x) / (cc - b);
    }
    if (c == "Discrete") {
        size_t n = p.size() / 2;
        if (x <= p[0]) return p[1];
        if (x >= p[2 * n - 2]) return p[2 * n - 1];
        for (size_t i = 1; i < n; ++i) {
            if (x == p[2 * i]) return p[2 * i + 1];
            if (x < p[2 * i]) return p[2 * i - 1] + (p[2 * i + 1] - p[2 * i - 1]) * (x - p[2 * i - 2]) / (p[2 * i] - p[2 * i - 2]);
        }
        return NaN;
    }
    return NaN;
}
inline double termDef(const TermSpec& t, double x) {
    if (t.cls == "Constant") return t.p[0];
    if (x != x) return NaN;
    return t.height * unitDef(t, x);
}
// hull of the definition over the comparison tolerance around x
struct Hull { double lo, hi; bool nan; };
inline Hull termHull(const TermSpec& t, double x) {
    Hull h; h.nan = false; h.lo = Inf; h.hi = -Inf;
    const double d = 2.1 * MACHEPS;
    const double xs[3] = {x, x - d, x + d};
    for (int i = 0; i < 3; ++i) {
        double v = termDef(t, xs[i]);
        if (v != v) { h.nan = true; continue; }
        h.lo = std::min(h.lo, v); h.hi = std::max(h.hi, v);
    }
    if (h.lo > h.hi) { h.lo = h.hi = NaN; }
    return h;
}
// does the library's value agree with the definition? (discontinuities and kinks within the tolerance)
inline bool termAccept(const TermSpec& t, double x, double got) {
    double exact = termDef(t, x);
    if (exact != exact) return got != got;
    if (close(got, exact, 1e-9)) return true;
    if (got != got) return false;
    Hull h = termHull(t, x);
    double slack = 1e-9 * std::max(1.0, std::fabs(t.height)) + (h.hi - h.lo < 0.01 ? 1.5 * (h.hi - h.lo) : 0.01 * std::fabs(t.height));
    if (h.hi - h.lo < 0.01) return got >= h.lo - slack && got <= h.hi + slack;
    // at a jump: near one of the two sides
    return std::fabs(got - h.lo) <= slack || std::fabs(got - h.hi) <= slack || (got > h.lo && got < h.hi && h.hi - h.lo < 0.2);
}
inline bool monotonicDef(const std::string& cls) { return cls == "Concave" || cls == "Ramp" || cls == "Sigmoid" || cls == "SShape" || cls == "ZShape"; }
inline double tsukamotoDef(const TermSpec& t, double y) {
    const std::vector<double>& p = t.p; double u = y / t.height;
    if (t.cls == "Ramp") return p[0] + (p[1] - p[0]) * u;
    if (t.cls == "Concave") return (p[0] - p[1]) / u + 2.0 * p[1] - p[0];
    if (t.cls == "Sigmoid") return p[0] - std::log(1.0 / u - 1.0) / p[1];
    if (t.cls == "SShape") return u <= 0.5 ? p[0] + (p[1] - p[0]) * std::sqrt(u / 2.0) : p[1] - (p[1] - p[0]) * std::sqrt((1.0 - u) / 2.0);
    if (t.cls == "ZShape") return u <= 0.5 ? p[1] - (p[1] - p[0]) * std::sqrt(u / 2.0) : p[0] + (p[1] - p[0]) * std::sqrt((1.0 - u) / 2.0);
    return NaN;
}
inline int paramCount(const std::string& c) {
    if (c == "Constant") return 1;
    if (c == "Bell" || c == "Triangle") return 3;
    if (c == "GaussianProduct" || c == "PiShape" || c == "SigmoidDifference" || c == "SigmoidProduct" || c == "Trapezoid") return 4;
    return 2;
}
inline std::string dec3(double x, int d = 3) {   // how this harness prints numbers into texts
    if (x != x) return "nan";
    if (std::isinf(x)) return x < 0 ? "-inf" : "inf";
    char b[64]; snprintf(b, sizeof b, "%.*f", d, x);
    std::string s = b;
    if (s.find_first_not_of("-0.") == std::string::npos && s[0] == '-') s = s.substr(1);
    return s;
}
inline std::string paramText(const TermSpec& t, int d = 3) {
    if (t.cls == "Function") return t.formula;
    std::string s;
    for (size_t i = 0; i < t.p.size(); ++i) s += (i ? " " : "") + dec3(t.p[i], d);
    if (t.cls != "Constant" && t.cls != "Linear" && t.height != 1.0) s += " " + dec3(t.height, d);
    return s;
}
std::string termStr(const TermSpec& t);

// ---- generators ----------------------------------------------------------------------------------
// random parameters with at most 3 decimals; [lo,hi] is the range of the variable (hi-lo >= 1)
inline TermSpec genShape(Rng& r, const std::string& cls, double lo, double hi, const std::string& name, bool open = true) {
    TermSpec t; t.cls = cls; t.name = name;
    double w = hi - lo;
    auto in = [&]() { return r.dec(lo, hi); };
    auto asc = [&](int n, double gap) {      // n ascending values
        std::vector<double> v;
        for (int i = 0; i < n; ++i) v.push_back(r.dec(lo - 0.1 * w, hi + 0.1 * w));
        std::sort(v.begin(), v.end());
        for (int i = 1; i < n; ++i) if (v[i] - v[i - 1] < gap) v[i] = std::floor((v[i - 1] + gap) * 1000 + 0.5) / 1000;
        return v;
    };
    double g = std::max(0.02, std::floor(0.02 * w * 1000) / 1000);
    if (cls == "Bell") t.p = {in(), r.dec(std::max(0.05, 0.05 * w), 0.6 * w), r.dec(0.5, 6.0)};
    else if (cls == "Binary") t.p = {in(), r.chance(0.3) ? (r.coin() ? Inf : -Inf) : in()};
    else if (cls == "Concave") { auto v = asc(2, g); t.p = r.coin() ? std::vector<double>{v[0], v[1]} : std::vector<double>{v[1], v[0]}; }
    else if (cls == "Cosine") t.p = {in(), r.dec(std::max(0.05, 0.1 * w), 1.5 * w)};
    else if (cls == "Gaussian") t.p = {in(), r.dec(std::max(0.05, 0.05 * w), 0.6 * w)};
    else if (cls == "GaussianProduct") { auto v = asc(2, 0.0); if (r.chance(0.15)) std::swap(v[0], v[1]); t.p = {v[0], r.dec(std::max(0.05, 0.05 * w), 0.5 * w), v[1], r.dec(std::max(0.05, 0.05 * w), 0.5 * w)}; }
    else if (cls == "PiShape") { auto v = asc(4, g); if (r.chance(0.2)) v[2] = v[1]; t.p = v; }
    else if (cls == "Ramp") { auto v = asc(2, g); t.p = r.coin() ? std::vector<double>{v[0], v[1]} : std::vector<double>{v[1], v[0]}; }
    else if (cls == "Rectangle") { auto v = asc(2, 0.0); t.p = v; if (open && r.chance(0.1)) t.p[0] = -Inf; if (open && r.chance(0.1)) t.p[1] = Inf; }
    else if (cls == "Sigmoid") { double s = r.dec(0.5 / w, 30.0 / w); if (s < 0.01) s = 0.01; t.p = {in(), r.coin() ? s : -s}; }
    else if (cls == "SigmoidDifference") { auto v = asc(2, 0.0); double s1 = std::max(0.01, r.dec(1 / w, 30 / w)), s2 = std::max(0.01, r.dec(1 / w, 30 / w)); t.p = {v[0], s1, s2, v[1]}; }
    else if (cls == "SigmoidProduct") { auto v = asc(2, 0.0); double s1 = std::max(0.01, r.dec(1 / w, 30 / w)), s2 = std::max(0.01, r.dec(1 / w, 30 / w)); t.p = {v[0], s1, -s2, v[1]}; }
    else if (cls == "Spike") t.p = {in(), r.dec(std::max(0.05, 0.1 * w), 1.5 * w)};
    else if (cls == "SShape" || cls == "ZShape") t.p = asc(2, g);
    else if (cls == "Trapezoid") {
        auto v = asc(4, g);
        if (r.chance(0.2)) v[1] = v[0];
        if (r.chance(0.2)) v[2] = v[3];
        if (r.chance(0.1)) v[2] = v[1];
        if (open && r.chance(0.12)) v[0] = -Inf;
        if (open && r.chance(0.12)) v[3] = Inf;
        t.p = v;
    } else if (cls == "Triangle") {
        auto v = asc(3, g);
        if (r.chance(0.15)) v[1] = v[0]; else if (r.chance(0.15)) v[1] = v[2];
        if (open && r.chance(0.12)) v[0] = -Inf;
        if (open && r.chance(0.12)) v[2] = Inf;
        t.p = v;
    } else if (cls == "Discrete") {
        int n = r.range(1, 8); auto v = asc(n, g);
        for (int i = 0; i < n; ++i) { t.p.push_back(v[i]); t.p.push_back(r.chance(0.2) ? (double) r.below(2) : r.dec(0, 1)); }
    } else if (cls == "Constant") t.p = {r.chance(0.05) ? 0.0 : r.dec(lo, hi)};
    if (cls != "Constant" && r.chance(0.2)) t.height = r.dec(0.1, 1.0) ;
    if (t.height == 0.0) t.height = 1.0;
    return t;
}
inline std::string termStr(const TermSpec& t) {
    std::string s = t.cls + " " + t.name + "(";
    if (t.cls == "Function") return s + t.formula + ")";
    for (size_t i = 0; i < t.p.size(); ++i) s += (i ? " " : "") + num(t.p[i]);
    return s + ")h=" + num(t.height);
}
// builds the library's term from the spec through its constructor/configure interface
fl::Term* buildTerm(const TermSpec& t);
}
#endif
