#include "defs.hpp"
using namespace vf;
static double special(Rng& r) {
    switch (r.below(11)) {
        case 9: return r.unit() * std::pow(10.0, -r.range(2, 8)); case 10: return 1.0 - r.unit() * std::pow(10.0, -r.range(2, 8));
        case 0: return 0.0; case 1: return 1.0; case 2: return 0.5;
        case 3: return r.unit() * 1e-9; case 4: return 1.0 - r.unit() * 1e-9;
        case 5: return r.unit() * 1e-3; case 6: return r.below(11) / 10.0;
        default: return r.unit();
    }
}
static fl::Norm* make(const std::string& n, bool t) {
    if (t) return fl::FactoryManager::instance()->tnorm()->constructObject(n);
    return fl::FactoryManager::instance()->snorm()->constructObject(n);
}
// custom formulas with their values
struct Custom { const char* f; double (*v)(double, double); };
static double f1(double a, double b) { return a * b; }
static double f2(double a, double b) { return a + b - a * b; }
static double f3(double a, double b) { return mn(a, b) * 0.75 + 0.25 * a * b; }
static double f4(double a, double b) { return a * a - b; }
static double f5(double a, double b) { return a / (1.0 + b * 3.0); }
static double f6(double a, double b) { return b; (void) a; }
static double f7(double a, double b) { return std::sqrt(std::fabs(a - b)); }
static const Custom CUSTOM[] = {{"a*b", f1}, {"a + b - a * b", f2}, {"min(a,b)*0.75+0.25*a*b", f3}, {"a^2 - b", f4}, {"a/(1 + b*3)", f5}, {"b", f6}, {"sqrt(abs(a - b))", f7}};

static void run(Ctx& c, Rng& r, long idx) {
    // every norm on one triple (a, b, d)
    double a = special(r), b = special(r), d = special(r);
    if (r.chance(0.1)) b = 1.0 - a;
    if (r.chance(0.05)) b = a;
    if (r.chance(0.04)) { double k = std::pow(10.0, -r.range(3, 6)); a = k * r.unit(); b = k * r.unit(); if (r.coin()) { a = 1.0 - a; b = 1.0 - b; } if (r.chance(0.2)) a = 1.0 - a; }   // both near an end
    if (r.chance(0.03)) a = NaN;
    if (r.chance(0.03)) b = NaN;
    if (idx < 121) { a = (idx % 11) / 10.0; b = (idx / 11) / 10.0; }
    c.note("norms a=" + num(a) + " b=" + num(b) + " c=" + num(d));
    for (int k = 0; k < 16; ++k) {
        bool t = k < 7; std::string n = t ? TNORMS[k] : SNORMS[k - 7];
        std::unique_ptr<fl::Norm> norm(make(n, t));
        double got = norm->compute(a, b);
        c.count("evaluations:" + std::string(t ? "T" : "S"));
        std::string w = n + "(" + num(a) + "," + num(b) + ")=" + num(got);
        if (a != a || b != b) {
            // piecewise definitions may settle for a constant branch; a silent *operand-dependent* number is wrong
            bool constBranch = (n == "DrasticProduct" || n == "NilpotentMinimum") ? got == 0.0 : (n == "DrasticSum" || n == "NilpotentMaximum") ? got == 1.0 : false;
            if (got == got && !constBranch) c.violation("nan:" + n, "a NaN operand gave a number: " + w);
            c.count("nan operands");
            continue;
        }
        c.distinct(w);
        if (normBorderline(n, a, b)) { c.count("skipped borderline"); continue; }
        double want = normDef(n, a, b);
        if (!close(got, want, 1e-9)) c.violation("definition:" + n, w + " but the definition gives " + num(want));
        double sw = norm->compute(b, a);
        if (!close(got, sw, 1e-9)) c.violation("commutative:" + n, w + " but swapped " + num(sw));
        double top = 1.0;
        if (got < -1e-9 || (got > top + 1e-9 && n != "UnboundedSum")) c.violation("range:" + n, w + " is outside [0,1]");
        if (t && got > mn(a, b) + 2e-6) c.violation("bound:" + n, w + " exceeds the minimum");
        if (!t && n != "UnboundedSum" && got < mx(a, b) - 2e-6) c.violation("bound:" + n, w + " is below the maximum");
        double id = norm->compute(a, t ? 1.0 : 0.0);
        if (!close(id, a, 2e-6)) c.violation("identity:" + n, n + "(" + num(a) + ", identity)=" + num(id));
        // monotone: compare with a second operand that is larger
        double b2 = std::max(b, d), b1 = std::min(b, d);
        double m1 = norm->compute(a, b1), m2 = norm->compute(a, b2);
        if (m1 > m2 + 3e-6) c.violation("monotone:" + n, n + "(" + num(a) + "," + num(b1) + ")=" + num(m1) + " > " + n + "(" + num(a) + "," + num(b2) + ")=" + num(m2));
        // associative: skipped where an intermediate decision is within the tolerance of a jump
        double ab = got, bd = norm->compute(b, d);
        double l = norm->compute(ab, d), rr = norm->compute(a, bd);
        bool near = false;
        if (n == "DrasticProduct" || n == "DrasticSum" || n == "NilpotentMinimum" || n == "NilpotentMaximum") {
            const double v[] = {a, b, d, ab, bd, a + b, b + d, ab + d, a + bd};
            for (double x : v) if ((std::fabs(x - 1.0) < 1e-5 && x != 1.0) || (std::fabs(x) < 1e-5 && x != 0.0)) near = true;
        }
        if (!near && !close(l, rr, 1e-5)) c.violation("associative:" + n, n + " of (" + num(a) + "," + num(b) + "," + num(d) + "): " + num(l) + " vs " + num(rr));
        if (!near) c.count("associativity checked");
        // norms are stateless and copies equal
        std::unique_ptr<fl::Norm> cp(t ? (fl::Norm*) static_cast<fl::TNorm*>(norm.get())->clone() : (fl::Norm*) static_cast<fl::SNorm*>(norm.get())->clone());
        if (!same(cp->compute(a, b), got) || cp->className() != n || !same(norm->compute(a, b), got)) c.violation("copy:" + n, "copy or recomputation differs: " + w);
    }
    for (int k = 0; k < 2; ++k) {
        const Custom& q = CUSTOM[r.below(7)];
        double want = q.v(a, b), g1, g2, g3;
        if (k == 0) { fl::TNormFunction f(r.coin() ? q.f : "a * a * b"); if (f.getFormula() != q.f) { f.compute(a, b); f.setFormula(q.f); } g1 = f.compute(a, b); f.compute(0.1, 0.9); g2 = f.compute(a, b); std::unique_ptr<fl::TNormFunction> cl(f.clone()); g3 = cl->compute(a, b); if (cl->getFormula() != q.f) c.violation("custom:formula", "formula lost by the copy"); }
        else { fl::SNormFunction f; if (r.coin()) { f.setFormula("a * a + b"); f.compute(a, b); } if (r.chance(0.1) && caught([&]() { f.setFormula("a +"); }).compare(0, 3, "fl:")) c.violation("custom:malformed", "a malformed formula of a norm is accepted"); f.setFormula(q.f); g1 = f.compute(a, b); f.compute(0.1, 0.9); g2 = f.compute(a, b); std::unique_ptr<fl::SNormFunction> cl(f.clone()); g3 = cl->compute(a, b); if (cl->getFormula() != q.f) c.violation("custom:formula", "formula lost by the copy"); }
        c.count("custom formulas");
        if (!close(g1, want, 1e-9) || !close(g2, want, 1e-9) || !close(g3, want, 1e-9))
            c.violation(k ? "custom:S" : "custom:T", std::string(q.f) + " at (" + num(a) + "," + num(b) + ") = " + num(g1) + "/" + num(g2) + "/" + num(g3) + " but should be " + num(want));
    }
    if (c.wantSample()) c.sample("a=" + num(a) + " b=" + num(b) + " c=" + num(d) + " on all 16 norms and two formula norms");
}
Property vf::PROPERTY("P09", 24000, 1500000, run, "operands (a,b,c) in [0,1] biased to ends, near-ends, a+b=1 and NaN, each on all norms; distinct = distinct (norm, a, b) evaluations", {{"evaluations:T", 10000}, {"associativity checked", 10000}, {"nan operands", 100}, {"custom formulas", 1000}});
