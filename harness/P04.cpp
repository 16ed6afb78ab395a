#include "model.hpp"
using namespace vf;
// changes one setting of the engine through its interface, and of its description
static std::string edit(Rng& r, EngineSpec& s, const EngineSpec& orig, Dual& m, fl::Engine* e) {
    fl::FactoryManager* f = fl::FactoryManager::instance();
    static const std::vector<std::string> T = {"AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "Minimum", "NilpotentMinimum"};
    static const std::vector<std::string> S = {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
    size_t o = r.below((int) s.out.size()), i = r.below((int) s.in.size()), b = r.below((int) s.blocks.size()), q = s.blocks[b].rules.empty() ? 0 : r.below((int) s.blocks[b].rules.size());
    VarSpec &O = s.out[o], &I = s.in[i]; BlockSpec& B = s.blocks[b]; fl::OutputVariable* y = e->getOutputVariable(o); fl::InputVariable* x = e->getInputVariable(i); fl::RuleBlock* k = e->getRuleBlock(b);
    switch (r.below(16)) {
        case 0: O.enabled = !O.enabled; y->setEnabled(O.enabled); return "enabled of " + O.name;
        case 1: I.enabled = !I.enabled; x->setEnabled(I.enabled); return "enabled of " + I.name;
        case 2: B.enabled = !B.enabled; k->setEnabled(B.enabled); return "enabled of block " + std::to_string(b);
        case 3: if (B.rules.empty()) return ""; B.rules[q].enabled = !B.rules[q].enabled; k->getRule(q)->setEnabled(B.rules[q].enabled); return "enabled of rule " + std::to_string(b) + "/" + std::to_string(q);
        case 4: if (B.rules.empty()) return ""; B.rules[q].weight = r.dec(0, 1); k->getRule(q)->setWeight(B.rules[q].weight); return "weight of rule " + std::to_string(b) + "/" + std::to_string(q);
        case 5: if (B.rules.empty()) return ""; m.a.rs[b][q] = m.b.rs[b][q] = Model::RS(); if (B.rules[q].loaded) { k->getRule(q)->unload(); B.rules[q].loaded = false; return "unloading rule " + std::to_string(b) + "/" + std::to_string(q); }
                k->getRule(q)->load(e); B.rules[q].loaded = B.rules[q].enabled = true; B.rules[q].weight = orig.blocks[b].rules[q].weight; return "loading rule " + std::to_string(b) + "/" + std::to_string(q);
        case 6: B.conj = r.pick(T); k->setConjunction(f->tnorm()->constructObject(B.conj)); return "conjunction " + B.conj;
        case 7: B.disj = r.pick(S); k->setDisjunction(f->snorm()->constructObject(B.disj)); return "disjunction " + B.disj;
        case 8: if (B.impl.empty()) return ""; B.impl = r.pick(T); k->setImplication(f->tnorm()->constructObject(B.impl)); return "implication " + B.impl;
        case 9: if (O.agg.empty()) return ""; O.agg = r.pick(S); y->setAggregation(f->snorm()->constructObject(O.agg)); return "aggregation " + O.agg;
        case 10: if (isIntegral(O.defuzz)) { O.defuzz = pickS(r, {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"}); O.res = r.range(5, 120); } else O.defuzz = O.defuzz == "WeightedSum" ? "WeightedAverage" : "WeightedSum"; y->setDefuzzifier(buildDefuzzifier(O)); return "defuzzifier " + O.defuzz;
        case 11: O.lockPrev = !O.lockPrev; y->setLockPreviousValue(O.lockPrev); return "lock-previous of " + O.name;
        case 12: O.lockRange = !O.lockRange; y->setLockValueInRange(O.lockRange); return "lock-range of " + O.name;
        case 13: O.def = r.coin() ? NaN : r.dec(-1, 1); y->setDefaultValue(O.def); return "default of " + O.name;
        case 14: I.lockRange = !I.lockRange; x->setLockValueInRange(I.lockRange); return "lock-range of " + I.name;
        default: B.act = pickS(r, {"First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"}); B.n = r.range(1, 4); B.thr = r.dec(0, 0.5); B.cmp = pickS(r, {"<", "<=", "==", "!=", ">", ">="}); k->setActivation(buildActivation(B)); return "activation " + B.act;
    }
}
static void run(Ctx& c, Rng& r, long idx) {
    GenOpts o; o.large = 0.02; if (c.seed % 2 == 0) o.maxRes = 120;
    o.infiniteRange = true; o.unloaded = true; o.kind = idx % 6;
    if (idx % 7 == 0) { o.maxRules = 20; o.maxDepth = 5; o.nest = 0.5; }
    EngineSpec s = genEngine(r, o), orig = s; bool edits = r.chance(0.4);
    c.note(specStr(s));
    std::unique_ptr<fl::Engine> e(buildApi(s));
    Dual m(s);
    int steps = r.range(2, 5); bool nonEmpty = false;
    std::string hist;
    for (int k = 0; k < steps; ++k) {
        if (edits && k > 0) for (int n = r.range(0, 3); n-- > 0;) { std::string w = edit(r, s, orig, m, e.get()); if (!w.empty()) { hist += w + "; "; c.count("settings changed between steps"); } }
        if (r.chance(0.05)) { e->restart(); m.restart(); hist += "restart; "; }
        for (size_t i = 0; i < s.in.size(); ++i) if (k == 0 || r.chance(0.8)) { double x = genInput(r, s.in[i], r.chance(0.15)); e->getInputVariable(i)->setValue(x); m.setInput(i, x); }
        hist += vecStr(m.a.in) + "; ";
        bool threw; std::string ex = caught([&]() { e->process(); }, &threw);
        if (threw) { c.violation("process-throws", "processing a complete engine throws: " + ex, specStr(s) + hist); return; }
        m.process(e.get());
        c.count("process calls"); 
        std::string key, d;
        if (m.fragile()) { c.count("steps too close to call"); m.resync(e.get()); continue; }
        d = m.compare(e.get(), key);
        if (!d.empty()) { c.violation(key, d, "inputs so far: " + hist + "\n" + specStr(s)); if (key != "kf:consequent-hedges-accumulate") return; }
        for (auto& x : m.a.out) if (x.value == x.value && !x.fuzzy.empty()) { nonEmpty = true; c.count("defuzzified values compared"); }
    }
    c.count("rule firings compared", m.a.fired); c.count("propositions evaluated", m.a.props);
    if (nonEmpty) c.distinct(specStr(s) + hist);
    if (c.wantSample() && nonEmpty) c.sample(specStr(s) + "inputs " + hist);
}
Property vf::PROPERTY("P04", 20000, 400000, run, "random engines of the six kinds (all terms, norms, hedges, activations, defuzzifiers, disabled parts) processed over histories of inputs and changes of settings (parts enabled and disabled, operators, activations, defuzzifiers, weights, locks, rules unloaded and loaded again) and compared with the reference model; distinct counts engine+history pairs with at least one defuzzified number", {{"defuzzified values compared", 1000}, {"settings changed between steps", 5000}});
