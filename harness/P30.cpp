#include "state.hpp"
using namespace vf;
static std::string results(const fl::Engine* e) {
    std::string s;
    for (auto o : e->outputVariables()) {
        s += o->getName() + " " + (o->isEnabled() ? num(o->getValue()) : std::string("disabled")) + "\n";
        for (auto& a : o->fuzzyOutput()->terms()) s += " " + a.getTerm()->getName() + " " + num(a.getDegree()) + " " + (a.getImplication() ? a.getImplication()->className() : std::string("-")) + "\n";
    }
    for (auto b : e->ruleBlocks()) if (b->isEnabled()) for (auto q : b->rules()) s += " rule " + num(q->getActivationDegree()) + " " + std::to_string(q->isTriggered()) + "\n";
    return s;
}
static std::string run1(fl::Engine* e, const std::vector<double>& x) { for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]); std::string ex = caught([&]() { e->process(); }); return ex.empty() ? results(e) : "fails: " + ex.substr(0, ex.find('\n')); /* a failed step may leave some outputs as they were */ }
struct Throwing : fl::TNorm { std::string className() const override { return "Throwing"; } fl::scalar compute(fl::scalar, fl::scalar) const override { throw fl::Exception("injected"); } Throwing* clone() const override { return new Throwing; } };
// changes a setting, works with it and restores it
static std::string excursion(Ctx& c, Rng& r, fl::Engine* e, const EngineSpec& s) {
    auto junk = [&]() { std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.1) ? NaN : genInput(r, v, r.chance(0.2))); run1(e, x); };
    fl::OutputVariable* o = e->getOutputVariable(r.below((int) e->numberOfOutputVariables())); fl::InputVariable* in = e->getInputVariable(r.below((int) e->numberOfInputVariables()));
    fl::RuleBlock* b = e->numberOfRuleBlocks() ? e->getRuleBlock(r.below((int) e->numberOfRuleBlocks())) : nullptr; fl::Rule* q = b && b->numberOfRules() ? b->getRule(r.below((int) b->numberOfRules())) : nullptr;
    int k = r.below(26); c.count("excursions");
    switch (k) {
        case 0: { bool x = o->isEnabled(); o->setEnabled(!x); junk(); o->setEnabled(x); return "output enabled"; }
        case 1: { bool x = in->isEnabled(); in->setEnabled(!x); junk(); in->setEnabled(x); return "input enabled"; }
        case 2: if (b) { bool x = b->isEnabled(); b->setEnabled(!x); junk(); b->setEnabled(x); } return "block enabled";
        case 3: if (q) { bool x = q->isEnabled(); q->setEnabled(!x); junk(); q->setEnabled(x); } return "rule enabled";
        case 4: if (q) { double x = q->getWeight(); q->setWeight(r.unit()); junk(); q->setWeight(x); } return "rule weight";
        case 5: { double x = o->getMinimum(), y = o->getMaximum(); o->setRange(x - 1, y + 2); junk(); o->setRange(x, y); return "output range"; }
        case 6: { double x = o->getDefaultValue(); o->setDefaultValue(r.unit()); junk(); o->setDefaultValue(x); return "default"; }
        case 7: { bool x = o->isLockValueInRange(); o->setLockValueInRange(!x); junk(); o->setLockValueInRange(x); return "output lock-range"; }
        case 8: { std::unique_ptr<fl::SNorm> x(o->getAggregation() ? o->getAggregation()->clone() : nullptr); o->setAggregation(r.coin() ? nullptr : (fl::SNorm*) new fl::EinsteinSum); junk(); o->setAggregation(x.release()); return "aggregation"; }
        case 9: { std::unique_ptr<fl::Defuzzifier> x(o->getDefuzzifier() ? o->getDefuzzifier()->clone() : nullptr); o->setDefuzzifier(r.coin() ? nullptr : (fl::Defuzzifier*) new fl::WeightedSum); junk(); o->setDefuzzifier(x.release()); return "defuzzifier"; }
        case 10: if (b) { std::unique_ptr<fl::TNorm> x(b->getConjunction() ? b->getConjunction()->clone() : nullptr); b->setConjunction(r.coin() ? nullptr : (fl::TNorm*) new Throwing); junk(); b->setConjunction(x.release()); } return "conjunction";
        case 11: if (b) { std::unique_ptr<fl::TNorm> x(b->getImplication() ? b->getImplication()->clone() : nullptr); b->setImplication(r.coin() ? nullptr : (fl::TNorm*) new Throwing); junk(); for (auto v : e->outputVariables()) v->fuzzyOutput()->clear(); b->setImplication(x.release()); } return "implication";
        case 12: if (b) { std::unique_ptr<fl::Activation> x(b->getActivation() ? b->getActivation()->clone() : nullptr); b->setActivation(r.coin() ? (fl::Activation*) new fl::Highest(1) : new fl::Proportional); junk(); b->setActivation(x.release()); } return "activation";
        case 13: if (b && q) { std::string t = q->getText(); bool en = q->isEnabled(), ld = q->isLoaded(); double w = q->getWeight(); q->unload(); junk(); caught([&]() { q->load("if nothing is nothing then", e); }); q->setText(t); if (ld) q->load(e); q->setEnabled(en); q->setWeight(w); } return "rule reloaded";
        case 14: { fl::Term* t = new fl::Triangle("temporary", 0, 1, 2); o->addTerm(t); junk(); delete o->removeTerm(o->numberOfTerms() - 1); return "term added and removed"; }
        case 15: { if (in->numberOfTerms()) { fl::Term* t = in->getTerm(r.below((int) in->numberOfTerms())); double h = t->getHeight(); t->setHeight(0.25); junk(); t->setHeight(h); } return "height"; }
        case 16: { static const char* bad[] = {"Engine: x\nInputVariable: y\n  term: t Nope 1 2", "Engine: x\n???", "RuleBlock: \n  rule: if a is b then c is d", "InputVariable: a\n  range: 1"}; bool t; std::unique_ptr<fl::Engine> f; caught([&]() { f.reset(fl::FllImporter().fromString(bad[r.below(4)])); }, &t); caught([&]() { f.reset(fl::FisImporter().fromString("[System]\nName='x'\n[Input1]\nName='a'\nMF1='b':'nope',[1 2]\n")); }); caught([&]() { f.reset(fl::FclImporter().fromString("FUNCTION_BLOCK x\nVAR_INPUT\na: REAL\nEND_VAR\nFUZZIFY a\nTERM b := (1,2) (3;\n")); }); c.count("failed imports"); return "failed import"; }
        case 17: { int d = fl::fuzzylite::decimals(); fl::fuzzylite::setDecimals(r.below(10)); junk(); e->toString(); fl::fuzzylite::setDecimals(d); return "decimals"; }
        case 18: { double m = fl::fuzzylite::macheps(); fl::fuzzylite::setMachEps(r.coin() ? 0.1 : 1e-12); junk(); fl::fuzzylite::setMachEps(m); return "tolerance"; }
        case 19: { Mute m; fl::fuzzylite::setDebugging(true); junk(); fl::fuzzylite::setDebugging(false); return "debugging"; }
        case 20: { e->toString(); e->isReady(); e->type(); e->variables(); std::string t; e->isReady(&t); e->type(&t, &t); for (auto v : e->variables()) { v->fuzzify(0.3); v->highestMembership(0.4); v->activations(0.1); } fl::FllExporter().toString(e); fl::CppExporter().toString(e); fl::JavaExporter().toString(e); caught([&]() { fl::FisExporter().toString(e); }); caught([&]() { fl::FclExporter().toString(e); }); return "queries and exports"; }
        case 21: { std::unique_ptr<fl::Engine> f(e->clone()); std::vector<double> x; for (auto& v : s.in) x.push_back(genInput(r, v, false)); run1(f.get(), x); f->restart(); return "copy processed"; }
        case 22: { caught([&]() { fl::FldExporter().toString(e, r.range(2, 30), fl::FldExporter::AllVariables); }); return "dataset exported"; }
        case 23: { caught([&]() { fl::Benchmark m("b", e); m.prepare(20, fl::FldExporter::AllVariables); m.run(1); }); return "benchmark run"; }
        case 24: { GenOpts g; g.heavy = 0.04; g.maxRules = 3; EngineSpec t = genEngine(r, g); std::unique_ptr<fl::Engine> f(buildApi(t)); std::vector<double> x; for (auto& v : t.in) x.push_back(genInput(r, v, false)); run1(f.get(), x); return "another engine"; }
        default: { junk(); e->restart(); return "restart"; }
    }
}
static void run(Ctx& c, Rng& r, long) {
    GenOpts g; g.heavy = 0.03; g.large = 0.02; g.locks = 0.25; g.disabled = 0.1; g.maxRules = 7; EngineSpec s = genEngine(r, g); bool lockPrev = false; for (auto& v : s.out) lockPrev = lockPrev || v.lockPrev;
    bool history = r.chance(0.7); if (history) for (auto& v : s.out) v.lockPrev = false;
    std::unique_ptr<fl::Engine> a(buildApi(s)), b, d; bool imported = false;
    std::string fll = a->toString(); c.note(specStr(s));
    if (history && r.coin()) { bool threw; caught([&]() { b.reset(fl::FllImporter().fromString(fll)); }, &threw); if (!b.get()) { c.count("not importable"); b.reset(buildApi(s)); } else imported = true; } else b.reset(buildApi(s));
    if (imported) { fl::fuzzylite::setDecimals(3); std::string q = b->toString(); if (q != fll) { imported = false; b.reset(buildApi(s)); } else { c.count("imported engines"); /* FLL has no disabled rules */ for (size_t i = 0; i < a->numberOfRuleBlocks(); ++i) for (size_t k = 0; k < a->getRuleBlock(i)->numberOfRules(); ++k) b->getRuleBlock(i)->getRule(k)->setEnabled(a->getRuleBlock(i)->getRule(k)->isEnabled()); } }
    int n = r.range(3, 9); std::vector<std::vector<double> > xs; for (int k = 0; k < n; ++k) { std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.07) ? NaN : genInput(r, v, r.chance(0.15))); xs.push_back(x); }
    std::string where = specStr(s);
    if (history) {
        // the first engine settles the results; the others see the inputs in other orders, repeated, and between other uses
        std::vector<std::string> want; for (auto& x : xs) want.push_back(run1(a.get(), x));
        std::string hist; std::vector<int> order; for (int k = 0; k < n; ++k) { order.push_back(k); if (r.coin()) order.push_back(r.below(n)); } r.shuffle(order);
        for (int k : order) {
            std::string w; int which = r.below(2); fl::Engine* e = which ? a.get() : b.get();
            for (int z = r.below(3); z-- > 0;) { w = excursion(c, r, e, s); hist += std::string(which ? "a: " : "b: ") + w + "; "; c.count("after " + w); }
            std::string got = run1(e, xs[k]); c.count("results compared"); if (got.find("fails: ") != std::string::npos) c.count("failing steps");
            if (got != want[k]) { c.violation("history-dependent", (w.empty() ? std::string(which || !imported ? "another order" : "the imported engine") : "after " + w) + " gives other results: " + diffText(want[k], got), hist + " for " + vecStr(xs[k]) + "\n" + where); return; }
        }
        c.distinct(hist + where);
    } else {
        // lock-previous included: a restarted engine continues as a freshly built one, and excursions followed by a restart leave nothing behind
        std::string hist; for (int k = r.range(1, 5); k-- > 0;) { std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.2) ? NaN : genInput(r, v, r.chance(0.2))); run1(a.get(), x); if (r.coin()) hist += excursion(c, r, a.get(), s) + "; "; }
        a->restart(); c.count("restarts"); hist += "restart";
        for (auto v : a->inputVariables()) if (!same(v->getValue(), NaN)) c.violation("restart", "a restarted engine keeps the value of " + v->getName(), hist + where);
        for (auto v : a->outputVariables()) if (!same(v->getValue(), NaN) || !same(v->getPreviousValue(), NaN) || v->fuzzyOutput()->numberOfTerms()) c.violation("restart", "a restarted engine keeps the value, previous value or fuzzy output of " + v->getName(), hist + where);
        if (describe(a.get(), false) != describe(b.get(), false)) c.violation("restart", "a restarted engine describes differently: " + diffText(describe(b.get(), false), describe(a.get(), false)), hist + where);
        for (auto& x : xs) {
            std::string p = run1(b.get(), x), q = run1(a.get(), x); c.count("results compared"); c.count("steps after restart");
            if (p == q) for (size_t i = 0; i < a->numberOfOutputVariables(); ++i) { fl::OutputVariable* u = b->getOutputVariable(i), * w = a->getOutputVariable(i); if (!same(u->getPreviousValue(), w->getPreviousValue()) || !same(u->getValue(), w->getValue())) { c.violation("restart", "a restarted engine has another previous value", hist + where); return; } }
            if (p != q) { c.violation("restart", "a restarted engine gives other results than a fresh one: " + diffText(p, q), hist + " for " + vecStr(x) + "\n" + where); return; }
        }
        c.distinct(hist + where);
    }
    if (c.wantSample()) c.sample(where);
}
Property vf::PROPERTY("P30", 10000, 100000, run, "generated engines processed on the same input vectors in shuffled and repeated orders, in API-built and FLL-imported twins, with 26 kinds of excursions between (settings changed and restored, injected failures, failed imports, exports, copies, benchmarks, other engines, restarts), results compared bit for bit with the first run; restarted engines (lock-previous included) continued beside fresh ones; distinct counts histories",
    {{"results compared", 20000}, {"excursions", 15000}, {"imported engines", 300}, {"restarts", 800}, {"failed imports", 500}, {"steps after restart", 4000}});
