#include "model.hpp"
using namespace vf;
static void run(Ctx& c, Rng& r, long) {
    fl::Engine eng; int ni = r.range(1, 3); std::vector<double> in; std::vector<std::string> names; Env env;
    for (int i = 0; i < ni; ++i) { std::string n = "i" + std::to_string(i); names.push_back(n); eng.addInputVariable(new fl::InputVariable(n)); in.push_back(r.dec(-5, 5)); env[n] = in[i]; eng.getInputVariable(i)->setValue(in[i]); }
    names.push_back("x");
    int kind = r.below(5);  // 0 TS, 1 Tsukamoto, 2 inverse Tsukamoto, 3 mixture, 4 shapes that cannot be inferred
    int nt = r.range(1, 5), na = r.chance(0.06) ? 0 : r.range(1, 8);
    std::vector<TermSpec> ts; std::vector<std::unique_ptr<fl::Term> > own;
    for (int i = 0; i < nt; ++i) {
        TermSpec t; std::string nm = "t" + std::to_string(i); static const int MIX[] = {0, 1, 4}; int k = kind == 3 ? MIX[r.below(3)] : kind;
        if (k == 0) {
            int q = r.below(3);
            if (q == 0) t = genShape(r, "Constant", -10, 10, nm);
            else if (q == 1) { t.cls = "Linear"; t.name = nm; for (int z = r.range(1, ni + 1); z > 0; --z) t.p.push_back(r.dec(-2, 2)); }
            else { t.cls = "Function"; t.name = nm; t.ast = fgen(r, names, 2, true); t.formula = fprint(t.ast, &r); }
        } else if (k == 4) t = genShape(r, pickS(r, {"Triangle", "Gaussian", "Bell", "Rectangle", "Trapezoid", "Cosine"}), -5, 5, nm);
        else t = genShape(r, pickS(r, {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"}), -5, 5, nm);
        if (t.cls == "Function" || t.cls == "Linear" || t.cls == "Constant") t.height = 1.0;
        ts.push_back(t); own.emplace_back(buildTerm(t)); own.back()->updateReference(&eng);
        if (t.cls == "Function") dynamic_cast<fl::Function*>(own.back().get())->load(t.formula, &eng);
    }
    std::string agg = r.chance(0.5) ? "" : SNORMS[r.below(9)];
    fl::Aggregated a("out", -5, 5, agg.empty() ? nullptr : fl::FactoryManager::instance()->snorm()->constructObject(agg));
    fl::Minimum mn_; std::vector<MAct> acts; std::string what = (agg.empty() ? "sum" : agg) + "[";
    for (int i = 0; i < na; ++i) { MAct m; m.term = r.below(nt); m.deg = r.chance(0.1) ? 1.0 : r.chance(0.05) ? 0.0 : r.dec(0.001, 1); acts.push_back(m); a.addTerm(own[m.term].get(), m.deg, r.coin() ? &mn_ : nullptr); what += num(m.deg) + "/" + termStr(ts[m.term]) + " "; }
    if (r.chance(0.05)) { what = "(scaled down by a million) " + what; a.clear(); for (auto& m : acts) { m.deg *= 1e-6; a.addTerm(own[m.term].get(), m.deg, r.coin() ? &mn_ : nullptr); } }
    what += "] inputs " + vecStr(in); c.note(what);
    static const char* T[] = {"Automatic", "TakagiSugeno", "Tsukamoto"};
    for (int w = 0; w < 2; ++w) for (int t = 0; t < 3; ++t) {
        std::unique_ptr<fl::WeightedDefuzzifier> d; if (w) d.reset(new fl::WeightedSum(T[t])); else d.reset(new fl::WeightedAverage(T[t]));
        if (d->getTypeName() != T[t]) c.violation("type-name", d->className() + " of type " + T[t] + " reports " + d->getTypeName());
        std::string nm = std::string(w ? "WeightedSum " : "WeightedAverage ") + T[t];
        std::string former; if (r.chance(0.4)) { // the defuzzifier has been used before, on another kind of output
            fl::Constant k("k", 2); fl::Ramp m("m", 0, 1); fl::Triangle g("g", 0, 1, 2); fl::Aggregated b("b", 0, 1); former = pickS(r, {"constants", "ramps", "triangles", "nothing", "mixture"}); if (former == "constants" || former == "mixture") b.addTerm(&k, 0.5, nullptr); if (former == "ramps" || former == "mixture") b.addTerm(&m, 0.5, nullptr); if (former == "triangles") b.addTerm(&g, 0.5, nullptr);
            caught([&]() { d->defuzzify(&b, 0, 1); }); nm += " used on " + former; c.count("defuzzifiers used before"); }
        bool threw; double got = 0; std::string ex = caught([&]() { got = d->defuzzify(&a, -5, 5); }, &threw);
        c.count("defuzzifications"); c.distinct(nm + what);
        // expected
        std::vector<int> order; std::map<int, double> wt; bool frag = false;
        for (auto& x : acts) { if (!wt.count(x.term)) { wt[x.term] = x.deg; order.push_back(x.term); } else { if (!agg.empty() && normBorderline(agg, wt[x.term], x.deg)) frag = true; wt[x.term] = agg.empty() ? wt[x.term] + x.deg : normDef(agg, wt[x.term], x.deg); } }
        if (frag) { c.count("skipped borderline"); continue; }
        if (acts.empty()) { if (threw || got == got) c.violation("empty:" + nm, nm + " of an empty output is " + (threw ? ex : num(got))); continue; }
        int tsu = t == 2; bool mustThrow = false;
        std::set<int> kinds; for (int q : order) { const std::string& k = ts[q].cls; kinds.insert(k == "Constant" || k == "Linear" || k == "Function" ? 0 : monotonicDef(k) ? 1 : 2); }
        if (t == 0) { if (kinds.size() > 1 || *kinds.begin() == 2) mustThrow = true; else tsu = *kinds.begin() == 1; }
        if (tsu && !mustThrow) for (int q : order) if (!monotonicDef(ts[q].cls)) mustThrow = true;
        if (mustThrow) { c.count("refused mixtures"); if (!threw) c.violation("mixture:" + nm, nm + " of " + what + " gives " + num(got) + " although it has no single type"); continue; }
        if (threw) { c.violation("throws:" + nm, nm + " of " + what + " throws " + ex); continue; }
        double sw = 0, sz = 0, mag = 0; bool skip = false;
        for (int q : order) {
            double y = wt[q], z; const TermSpec& s = ts[q];
            if (tsu) { double u = std::fabs(y / s.height); z = u < 1e-3 || u > 1 - 1e-6 ? own[q]->tsukamoto(y) : tsukamotoDef(s, y); if (!(u < 1 - 1e-6)) z = own[q]->tsukamoto(y); }
            else if (s.cls == "Constant") z = s.p[0];
            else if (s.cls == "Linear") { z = 0; for (size_t i = 0; i < in.size() && i < s.p.size(); ++i) z += s.p[i] * in[i]; if (s.p.size() > in.size()) z += s.p.back(); }
            else if (s.cls == "Function") { Env e = env; e["x"] = y; FEval st; z = feval(s.ast, e, &st); skip = skip || st.fragile; }
            else { z = own[q]->membership(y); if (!termAccept(s, y, z)) c.violation("membership", termStr(s) + " at " + num(y) + " gives " + num(z)); }
            sw += y; sz += y * z; mag += std::fabs(y * z);
        }
        double want = w ? sz : sz / sw, m = w ? mag : mag / std::fabs(sw);
        if (skip || (sw != 0 && sw < 1e-7)) { c.count("skipped borderline"); continue; }
        if (!(same(want, got) || (want != want && got != got) || std::fabs(got - want) <= 1e-8 * std::max(1.0, m))) c.violation("value:" + nm, nm + " of " + what + " is " + num(got) + " but the definition gives " + num(want));
        std::unique_ptr<fl::Defuzzifier> cl(d->clone()); if (!same(cl->defuzzify(&a, -5, 5), got)) c.violation("clone", "a clone of " + nm + " gives another value");
        if (d->getTypeName() != T[t] || d->getType() != (t == 0 ? fl::WeightedDefuzzifier::Automatic : t == 1 ? fl::WeightedDefuzzifier::TakagiSugeno : fl::WeightedDefuzzifier::Tsukamoto)) c.violation("type-name", nm + " changes its type to " + d->getTypeName());
        c.count("values compared");
    }
    // only a fuzzy output can be defuzzified
    fl::WeightedAverage wa; fl::Triangle tri("t", 0, 1, 2);
    if (caught([&]() { wa.defuzzify(&tri, 0, 1); }).compare(0, 3, "fl:") || caught([&]() { wa.defuzzify(nullptr, 0, 1); }).compare(0, 3, "fl:")) c.violation("not-aggregated", "a weighted defuzzifier accepts a term that is not a fuzzy output");
    if (!acts.empty()) c.sample(what);
}
Property vf::PROPERTY("P15", 16000, 500000, run, "random fuzzy outputs (repeated terms, aggregation operators or none, zero degrees) of Takagi-Sugeno, monotonic, mixed and other terms through both weighted defuzzifiers and the three types; distinct counts defuzzifier+output", {{"defuzzifiers used before", 2000}, {"values compared", 20000}, {"refused mixtures", 2000}});
