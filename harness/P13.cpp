#include "spec.hpp"
using namespace vf;
static const char* MONO[] = {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"};
static void run(Ctx& c, Rng& r, long idx) {
    if (idx % 8 == 7) {   // which terms are monotonic
        std::vector<std::string> all = fl::FactoryManager::instance()->term()->available();
        for (auto& k : all) {
            if (k.empty()) continue;
            std::unique_ptr<fl::Term> t;
            bool shape = false; for (auto s : SHAPES) shape = shape || k == s;
            if (shape) t.reset(buildTerm(genShape(r, k, -5, 5, "t"))); else t.reset(fl::FactoryManager::instance()->term()->constructObject(k));
            bool mono = monotonicDef(k);
            c.count("classifications");
            if (t->isMonotonic() != mono) c.violation("monotonic:" + k, k + (mono ? " is not reported" : " is reported") + " monotonic");
            if (!mono) { std::string ex = caught([&]() { t->tsukamoto(r.unit()); }); if (ex.compare(0, 3, "fl:")) c.violation("no-exception:" + k, k + " inverts a degree without an exception"); }
        }
        return;
    }
    TermSpec t = genShape(r, MONO[idx % 5], r.dec(-20, 0), r.dec(1, 20), "t");
    if (r.chance(0.3)) t.height = r.dec(0.05, 4);
    if (idx % 8 == 6) { // extreme slopes and positions
        double s = std::pow(10.0, r.range(-2, 4)); for (auto& p : t.p) p *= s; if (t.cls == "Sigmoid") t.p[1] /= s * s;
    }
    c.note(termStr(t));
    std::unique_ptr<fl::Term> term(buildTerm(t)), cl(term->clone());
    bool inc = t.cls == "SShape" || (t.cls == "Sigmoid" ? t.p[1] > 0 : t.cls == "ZShape" ? false : t.p[1] > t.p[0]);
    double prev = NaN, prevU = 0; std::vector<double> us;
    for (int i = 0; i < 12; ++i) us.push_back(r.real(0.001, 0.999)); us.push_back(0.5); us.push_back(1e-4); us.push_back(1 - 1e-4); std::sort(us.begin(), us.end());
    double scale = std::max(1.0, std::max(std::fabs(t.p[0]), std::fabs(t.p[1])));
    if (t.cls == "Sigmoid") scale = std::max(1.0, std::fabs(t.p[0]) + 10.0 / std::fabs(t.p[1]));
    for (double u : us) {
        double y = u * t.height, z = term->tsukamoto(y);
        c.count("inversions"); c.distinct(termStr(t) + num(u));
        double want = tsukamotoDef(t, y);
        double tol = t.cls == "Concave" ? 1e-9 * scale / (u * u) : 1e-9 * scale;
        if (!(std::fabs(z - want) <= tol * 100 + 1e-9 * std::fabs(want))) c.violation("inverse:" + t.cls, termStr(t) + " inverts " + num(y) + " to " + num(z) + " but the definition gives " + num(want));
        double back = termDef(t, z);
        double width = t.cls == "Sigmoid" ? 1.0 / std::fabs(t.p[1]) : std::fabs(t.p[1] - t.p[0]);
        double btol = 1e-7 * t.height + t.height * 1e-13 * scale / std::max(1e-12, width) * 100;
        // the inverse is steep where the term is flat: judge the membership at the inverse
        if (!(std::fabs(back - y) <= btol)) c.violation("membership:" + t.cls, termStr(t) + " inverts " + num(y) + " to " + num(z) + " whose membership is " + num(back));
        double mlib = term->membership(z); if (!(std::fabs(mlib - y) <= btol + 1e-5 * t.height * std::max(1.0, 1.0 / width))) c.violation("library-membership:" + t.cls, termStr(t) + " at its inverse " + num(z) + " of " + num(y) + " has membership " + num(mlib));
        if (prev == prev && u > prevU + 1e-9 && !(inc ? z >= prev - tol : z <= prev + tol)) c.violation("direction:" + t.cls, termStr(t) + ": inverse is not monotone: " + num(prevU) + "->" + num(prev) + " " + num(u) + "->" + num(z));
        if (!same(cl->tsukamoto(y), z)) c.violation("clone:" + t.cls, "a clone inverts differently");
        prev = z; prevU = u;
    }
    c.sample(termStr(t));
}
Property vf::PROPERTY("P13", 24000, 1000000, run, "random monotonic terms (both directions, heights, scales) inverted at many degrees; inverse compared with the closed form and pushed back through the membership; distinct counts term+degree pairs", {{"inversions", 50000}, {"classifications", 1000}});
