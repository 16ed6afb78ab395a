#include "model.hpp"
using namespace vf;
static bool ts(const std::string& c) { return c == "Constant" || c == "Linear" || c == "Function"; }
static void run(Ctx& c, Rng& r, long) {
    fl::Engine e(pickS(r, {"a", "", "Larsen"})); std::vector<VarSpec> vs; std::vector<std::string> impl; bool viaFll = false;
    int ni = r.range(0, 2); for (int i = 0; i < ni; ++i) { fl::InputVariable* v = new fl::InputVariable("i" + std::to_string(i), 0, 1); v->addTerm(new fl::Ramp("t", 0, 1)); e.addInputVariable(v); }
    int no = r.chance(0.05) ? 0 : r.range(1, 4), base = r.below(8); std::string desc;
    for (int i = 0; i < no; ++i) {
        VarSpec v; v.name = "o" + std::to_string(i); int k = r.chance(0.75) ? base : r.below(8);
        switch (k) { case 0: case 1: v.defuzz = pickS(r, {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}); break; case 7: if (r.chance(0.3)) break; /* fallthrough */ default: v.defuzz = pickS(r, {"WeightedAverage", "WeightedSum"}); v.wtype = k == 2 ? pickS(r, {"Automatic", "TakagiSugeno"}) : k == 3 ? pickS(r, {"Automatic", "Tsukamoto"}) : pickS(r, {"Automatic", "TakagiSugeno", "Tsukamoto"}); }
        int nt = r.range(0, 4); for (int t = 0; t < nt; ++t) { std::string n = "t" + std::to_string(t), cls = k <= 1 ? SHAPES[r.below(18)] : k == 2 ? pickS(r, {"Constant", "Linear", "Function"}) : k == 3 ? pickS(r, {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"}) : SHAPES[r.below(18)]; if (r.chance(0.1)) cls = r.coin() ? "Constant" : SHAPES[r.below(18)];
            TermSpec s; if (cls == "Linear") { s.cls = cls; s.name = n; s.p.push_back(1); } else if (cls == "Function") { s.cls = cls; s.name = n; s.formula = "1+x"; } else s = genShape(r, cls, 0, 1, n); v.terms.push_back(s); }
        v.enabled = !r.chance(0.1); vs.push_back(v);
        fl::OutputVariable* o = new fl::OutputVariable(v.name, 0, 1); e.addOutputVariable(o); o->setEnabled(v.enabled); if (r.coin()) o->setAggregation(new fl::Maximum); o->setDefuzzifier(buildDefuzzifier(v)); for (auto& t : v.terms) o->addTerm(buildTerm(t));
        desc += v.name + " " + (v.defuzz.empty() ? "none" : v.defuzz) + "/" + v.wtype + ":"; for (auto& t : v.terms) desc += " " + t.cls; desc += "; ";
    }
    int nb = r.range(0, 3); bool lar = r.coin();
    for (int b = 0; b < nb; ++b) { fl::RuleBlock* k = new fl::RuleBlock("b"); e.addRuleBlock(k); std::string im = lar && r.chance(0.85) ? "AlgebraicProduct" : r.chance(0.2) ? "" : TNORMS[r.below(7)]; impl.push_back(im); if (!im.empty()) k->setImplication(fl::FactoryManager::instance()->tnorm()->constructObject(im)); k->setEnabled(!r.chance(0.1)); if (r.coin()) k->setConjunction(new fl::Minimum); k->setActivation(r.coin() ? (fl::Activation*) new fl::General : new fl::Proportional); desc += "block " + im + "; "; }
    (void) viaFll; c.note(desc);
    bool integ = true, weighted = true, full = true, tak = true, tsu = true;
    for (auto& v : vs) {
        bool in = isIntegral(v.defuzz), we = !v.defuzz.empty() && !in; integ = integ && in; weighted = weighted && we; full = full && !v.defuzz.empty();
        tak = tak && we && v.wtype != "Tsukamoto"; tsu = tsu && we && v.wtype != "TakagiSugeno"; for (auto& t : v.terms) { tak = tak && ts(t.cls); tsu = tsu && monotonicDef(t.cls); }
    }
    bool allProd = nb > 0; for (auto& i : impl) allProd = allProd && i == "AlgebraicProduct";
    fl::Engine::Type want; std::string wn;
    if (vs.empty()) want = fl::Engine::Unknown, wn = "Unknown";
    else if (integ) { want = allProd ? fl::Engine::Larsen : fl::Engine::Mamdani; wn = allProd ? "Larsen" : "Mamdani"; }
    else if (tak) want = fl::Engine::TakagiSugeno, wn = "Takagi-Sugeno";
    else if (tsu) want = fl::Engine::Tsukamoto, wn = "Tsukamoto";
    else if (weighted) want = fl::Engine::InverseTsukamoto, wn = "Inverse Tsukamoto";
    else if (full) want = fl::Engine::Hybrid, wn = "Hybrid";
    else want = fl::Engine::Unknown, wn = "Unknown";
    auto check = [&](const fl::Engine& x, const std::string& when) {
        std::string n, why; fl::Engine::Type t = x.type(&n, &why), t2 = x.type(), t3; std::string n2; t3 = x.type(&n2); c.count("classifications");
        auto squash = [](std::string q) { std::string o; for (char ch : q) if (isalpha((unsigned char) ch)) o += (char) tolower(ch); return o; };
        if (t != want) c.violation("type:" + wn, "the type " + when + " is " + n + " instead of " + wn + " for " + desc);
        if (t2 != t || t3 != t || n2 != n) c.violation("arguments", "the type depends on whether name and reason are wanted: " + desc);
        if (squash(n) != squash(wn)) c.violation("name", "the name " + when + " is '" + n + "' instead of " + wn + " for " + desc);
        if (why.empty()) c.violation("reason", "no reason is given for type " + n + " of " + desc);
    };
    check(e, "initially"); c.count("expected " + wn); c.distinct(desc);
    // whatever else changes must not matter
    for (int k = 0; k < 5; ++k) {
        std::string w;
        switch (r.below(9)) {
            case 0: if (ni) e.getInputVariable(0)->setValue(r.unit()); w = "after setting an input"; break;
            case 1: if (no) e.getOutputVariable(r.below(no))->setEnabled(r.coin()); w = "after (dis)abling an output"; break;
            case 2: if (nb) e.getRuleBlock(r.below(nb))->setEnabled(r.coin()); w = "after (dis)abling a block"; break;
            case 3: e.setName("Tsukamoto"); w = "after renaming"; break;
            case 4: if (nb) e.getRuleBlock(r.below(nb))->setActivation(new fl::First); w = "after changing the activation"; break;
            case 5: { try { e.process(); } catch (std::exception&) {} w = "after processing"; break; }
            case 6: if (nb) { e.getRuleBlock(r.below(nb))->setConjunction(new fl::AlgebraicProduct); e.getRuleBlock(r.below(nb))->setDisjunction(nullptr); } w = "after changing connectives"; break;
            case 7: if (no) { e.getOutputVariable(r.below(no))->setAggregation(new fl::AlgebraicSum); e.getOutputVariable(r.below(no))->fuzzyOutput()->clear(); } w = "after changing the aggregation"; break;
            default: { e.restart(); if (nb && ni && no && vs[0].terms.size()) { fl::Rule* u = new fl::Rule; e.getRuleBlock(0)->addRule(u); caught([&]() { u->load("if i0 is t then o0 is " + vs[0].terms[0].name, &e); }); } w = "after adding a rule"; }
        }
        check(e, w);
    }
    fl::Engine copy(e); check(copy, "of a copy"); c.sample(desc + " -> " + wn);
}
Property vf::PROPERTY("P33", 40000, 1000000, run, "engines with up to four outputs of every combination of defuzzifier class, weighted type, term classes and implications; type, name and reason compared with the definition, repeated after unrelated changes and on a copy; distinct counts configurations",
    {{"expected Mamdani", 500}, {"expected Larsen", 300}, {"expected Takagi-Sugeno", 500}, {"expected Tsukamoto", 500}, {"expected Inverse Tsukamoto", 500}, {"expected Hybrid", 500}, {"expected Unknown", 300}});
