#include "state.hpp"
using namespace vf;
static std::string outs(fl::Engine* e, const std::vector<double>& x) {
    for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]);
    bool threw; caught([&]() { e->process(); }, &threw); if (threw) return "fails";
    std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + " prev " + num(o->getPreviousValue()) + " " + std::to_string(o->fuzzyOutput()->numberOfTerms()) + "\n";
    for (auto b : e->ruleBlocks()) for (auto q : b->rules()) s += " rule " + num(q->getActivationDegree()) + " " + std::to_string(q->isTriggered()) + "\n";
    return s;
}
static std::string text(Rng& r) { static const char* w[] = {"the", "value: of", "a=b", "x,y", "(1 2)", "\"quoted\"", "'single'", "naïve", "%", "\\n", "term:", "rule: if", "100.5", "none", "Engine:", "::", "/", "-", "_"}; std::string s; for (int k = r.range(1, 5); k-- > 0;) s += std::string(s.empty() ? "" : " ") + w[r.below(19)]; return s; }
static void run(Ctx& c, Rng& r, long) {
    int d = r.chance(0.5) ? 3 : r.range(3, 9); int od = r.chance(0.6) ? d : r.below(10); fl::fuzzylite::setDecimals(d);
    GenOpts g; g.heavy = 0.04; g.large = 0.02; g.locks = 0.3; g.disabled = 0.12; g.infiniteRange = r.chance(0.2); EngineSpec s = genEngine(r, g); bool parts = r.chance(0.6);
    if (r.chance(0.06)) { d = r.below(3); fl::fuzzylite::setDecimals(d); roundSpec(s, d); c.count("few decimals"); }
    for (auto& b : s.blocks) for (auto& q : b.rules) q.enabled = true;       // FLL has no disabled rules
    if (r.chance(0.3)) { if (r.coin()) s.desc = text(r); if (r.coin()) s.name = text(r); for (auto& v : s.in) if (r.coin()) v.desc = text(r); for (auto& v : s.out) if (r.coin()) v.desc = text(r); for (auto& b : s.blocks) { if (r.coin()) b.desc = text(r); if (r.coin()) b.name = text(r); } }
    if (r.chance(0.05)) s.blocks.clear();
    if (r.chance(0.05)) { s.blocks.clear(); s.out.clear(); }
    if (r.chance(0.05)) for (auto& v : s.out) if (r.coin()) { v.agg = ""; v.defuzz = ""; }
    std::unique_ptr<fl::Engine> a(buildApi(s)); std::string sep = r.chance(0.8) ? "\n" : r.coin() ? "|" : " ;; ", indent = r.chance(0.7) ? "  " : r.coin() ? "\t" : "";
    bool clean = specStr(s).find('|') == std::string::npos; if (!clean) sep = "\n";
    fl::FllExporter ex(indent, sep); std::string fll = ex.toString(a.get()); c.note(fll);
    if (indent == "  " && sep == "\n" && a->toString() != fll) c.violation("toString", "Engine::toString differs from the exported text", diffText(a->toString(), fll));
    std::unique_ptr<fl::Engine> b; std::string why;
    if (r.chance(0.15)) {
        std::string p = scratchDir() + "/e.fll"; ex.toFile(p, a.get()); std::string f = readFile(p); c.count("files");
        if (f != fll + "\n") c.violation("file", "the exported file differs from the exported text: " + diffText(fll, f), fll);
        why = caught([&]() { Decimals z(od); b.reset(fl::FllImporter(sep).fromFile(p)); });
    } else why = caught([&]() { Decimals z(od); b.reset(fl::FllImporter(sep).fromString(fll)); });
    if (!b.get()) { c.violation("import", "the exported text is not imported: " + why.substr(0, 200), fll); return; }
    CmpOpts o; std::string df = diffEngines(a.get(), b.get(), o); c.count("engines"); c.distinct(fll);
    if (!df.empty()) { c.violation("round-trip", "the imported engine differs: " + df, fll); return; }
    if (describe(a.get(), false) != describe(b.get(), false)) { c.violation("round-trip", "the imported engine differs: " + diffText(describe(a.get(), false), describe(b.get(), false)), fll); return; }
    std::string f2 = ex.toString(b.get()); if (f2 != fll) { c.violation("fixpoint", "exporting the imported engine gives another text: " + diffText(fll, f2), fll); return; }
    // an own writer of the same engine is read as the same engine
    if (clean && r.chance(0.5)) {
        std::string own = toFll(s, d); std::unique_ptr<fl::Engine> w; if (r.coin()) own = "# comment\n\n" + own + "\n   # another\n";
        why = caught([&]() { Decimals z(od); w.reset(fl::FllImporter().fromString(own)); }); c.count("independently written texts");
        if (!w.get()) c.violation("import", "a well-formed text is not imported: " + why.substr(0, 200), own);
        else if (describe(a.get(), false) != describe(w.get(), false)) c.violation("import", "a well-formed text gives another engine: " + diffText(describe(a.get(), false), describe(w.get(), false)), own);
    }
    for (int k = r.range(1, 4); k-- > 0 && !s.out.empty();) {
        std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.1) ? NaN : genInput(r, v, r.chance(0.2)));
        std::string p = outs(a.get(), x), q = outs(b.get(), x); c.count("steps compared");
        if (p != q) { c.violation("behaviour", "the imported engine computes differently: " + diffText(p, q), "inputs " + vecStr(x) + "\n" + fll); return; }
        if (p == "fails") { c.count("failing steps"); break; }
    }
    if (!parts) return;
    ex = fl::FllExporter(); auto bad = [&](const std::string& what, const std::string& t) { c.violation("part", what + " exported alone denotes something else", t + "\n--\n" + fll); };
    auto var = [&](fl::Variable* v, bool out) {
        std::string t = out ? ex.toString((fl::OutputVariable*) v) : ex.toString((fl::InputVariable*) v); c.count("parts");
        if ((out ? ((fl::OutputVariable*) v)->toString() : ((fl::InputVariable*) v)->toString()) != t) bad("toString of a variable", t);
        bool fn = false; for (auto m : v->terms()) fn = fn || m->className() == "Function" || m->className() == "Linear";
        for (auto m : v->terms()) { std::string mt = ex.toString(m); c.count("parts"); if (m->toString() != mt || t.find("\n  " + mt + "\n") == std::string::npos && t.find("\n  " + mt) != t.size() - mt.size() - 3) bad("a term", mt); }
        if (fn) return;
        std::unique_ptr<fl::Engine> e; caught([&]() { e.reset(fl::FllImporter().fromString("Engine: e\n" + t)); });
        fl::Variable* w = !e.get() ? nullptr : out ? (e->numberOfOutputVariables() == 1 ? (fl::Variable*) e->getOutputVariable(0) : nullptr) : e->numberOfInputVariables() == 1 ? e->getInputVariable(0) : nullptr;
        if (!w || describeVar(w, false) != describeVar(v, false)) bad("a variable", t);
        // the plain variable with its terms
        fl::Variable pv(*v); std::string pt = ex.toString(&pv); if (pt.compare(0, 10, "Variable: ") != 0) bad("a plain variable", pt);
        e.reset(); caught([&]() { e.reset(fl::FllImporter().fromString("Engine: e\nInput" + pt)); });
        if (!e.get() || e->numberOfInputVariables() != 1 || ex.toString((fl::Variable*) e->getInputVariable(0)) != pt || (e->getInputVariable(0)->numberOfTerms() != v->numberOfTerms())) bad("a plain variable", pt);
    };
    for (auto v : a->inputVariables()) var(v, false);
    for (auto v : a->outputVariables()) var(v, true);
    for (auto k : a->ruleBlocks()) {
        std::string t = ex.toString(k); c.count("parts"); if (k->toString() != t) bad("toString of a block", t);
        std::unique_ptr<fl::Engine> e; caught([&]() { Mute m; e.reset(fl::FllImporter().fromString("Engine: e\n" + t)); });
        if (!e.get() || e->numberOfRuleBlocks() != 1) { bad("a rule block", t); continue; }
        fl::RuleBlock* w = e->getRuleBlock(0); bool ok = w->getName() == k->getName() && w->getDescription() == k->getDescription() && w->isEnabled() == k->isEnabled() && w->numberOfRules() == k->numberOfRules();
        auto cn = [](const fl::Norm* n) { return n ? n->className() : std::string("none"); };
        ok = ok && cn(w->getConjunction()) == cn(k->getConjunction()) && cn(w->getDisjunction()) == cn(k->getDisjunction()) && cn(w->getImplication()) == cn(k->getImplication());
        ok = ok && ex.toString(w->getActivation()) == ex.toString(k->getActivation());
        for (size_t i = 0; ok && i < k->numberOfRules(); ++i) { std::string rt = ex.toString(k->getRule(i)); ok = w->getRule(i)->getText() == k->getRule(i)->getText() && rt == "rule: " + k->getRule(i)->getText() && k->getRule(i)->toString() == rt; c.count("parts"); }
        if (!ok) bad("a rule block", t);
        if (k->getConjunction() && ex.toString(k->getConjunction()) != k->getConjunction()->className()) bad("a norm", t);
    }
    std::string all = "Engine: " + a->getName(); if (!a->getDescription().empty()) all += "\ndescription: " + a->getDescription();
    if (a->numberOfInputVariables()) all += "\n" + ex.toString(a->inputVariables()); if (a->numberOfOutputVariables()) all += "\n" + ex.toString(a->outputVariables()); if (a->numberOfRuleBlocks()) all += "\n" + ex.toString(a->ruleBlocks());
    if (all != ex.toString(a.get())) bad("the lists of parts", all);
}
Property vf::PROPERTY("P19", 6000, 120000, run, "one engine of any kind (all shapes, norms, activations, defuzzifiers, descriptions, separators, decimals 3..9): export, import, structural and behavioural comparison, re-export, parts, independently written text; distinct: exported texts",
    {{"engines", 4000}, {"steps compared", 5000}, {"parts", 10000}, {"independently written texts", 1000}, {"files", 300}});
