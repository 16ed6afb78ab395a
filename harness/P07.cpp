#include "model.hpp"
using namespace vf;
static void needs(const EX& x, bool& a, bool& o) { if (x->k == Expr::P) return; (x->k == Expr::And ? a : o) = true; needs(x->l, a, o); needs(x->r, a, o); }
static void feat(const EngineSpec& s, const EX& x, Ctx& c, int depth) {
    if (x->k != Expr::P) { feat(s, x->l, c, depth + 1); feat(s, x->r, c, depth + 1); if (x->k == Expr::And && (x->l->k == Expr::Or || x->r->k == Expr::Or)) c.count("or nested in and"); if (x->k == Expr::Or && (x->l->k == Expr::And || x->r->k == Expr::And)) c.count("and nested in or"); if (x->r->k == x->k) c.count("right-nested operator"); return; }
    const Prop& p = x->p; c.count("propositions"); if (p.out) c.count("propositions about outputs"); if (p.term < 0) c.count("any"); if (p.hedges.size() > 1) c.count("hedge chains"); if (!(p.out ? s.out : s.in)[p.var].enabled) c.count("propositions about disabled variables");
}
static void run(Ctx& c, Rng& r, long idx) {
    GenOpts o; o.maxRules = 6; o.maxDepth = idx % 5 == 0 ? 8 : 4; o.nest = 0.5; o.any = 0.1; o.functions = false; o.outAnte = 0.3; o.disabled = 0.12; o.hedges = 0.5; o.weights = 0.5; o.activations = false;
    EngineSpec s = genEngine(r, o); std::unique_ptr<fl::Engine> e(buildApi(s)); Model m(s); std::string hist;
    fl::TNormFactory* tf = fl::FactoryManager::instance()->tnorm(); fl::SNormFactory* sf = fl::FactoryManager::instance()->snorm();
    for (int step = 0; step < 4; ++step) {
        m.bad.clear();
        for (size_t i = 0; i < s.in.size(); ++i) { double x = genInput(r, s.in[i], r.chance(0.1)); e->getInputVariable(i)->setValue(x); m.setInput(i, x); }
        if (step && r.chance(0.3)) { bool out = r.coin(); auto& vs = out ? s.out : s.in; int i = r.below((int) vs.size()); vs[i].enabled = !vs[i].enabled; fl::Variable* v = out ? (fl::Variable*) e->getOutputVariable(i) : e->getInputVariable(i); v->setEnabled(vs[i].enabled); }
        for (size_t k = 0; k < s.out.size(); ++k) {
            fl::OutputVariable* v = e->getOutputVariable(k);
            if (r.chance(0.3)) { v->fuzzyOutput()->clear(); m.out[k].fuzzy.clear(); }
            if (r.chance(0.15)) { s.out[k].agg = r.chance(0.2) ? "" : SNORMS[r.below(9)]; v->setAggregation(s.out[k].agg.empty() ? nullptr : sf->constructObject(s.out[k].agg)); }
            int n = r.range(0, 5);
            for (int j = 0; j < n; ++j) { int t = r.below((int) s.out[k].terms.size()); double d = r.chance(0.2) ? r.below(2) : r.unit(); v->fuzzyOutput()->addTerm(v->getTerm(t), d, nullptr); m.out[k].fuzzy.push_back(MAct{t, d, ""}); hist += "add " + v->getName() + "." + v->getTerm(t)->getName() + " " + num(d) + "; "; }
        }
        for (size_t b = 0; b < s.blocks.size(); ++b) for (size_t i = 0; i < s.blocks[b].rules.size(); ++i) {
            RuleSpec& q = s.blocks[b].rules[i]; fl::Rule* u = e->getRuleBlock(b)->getRule(i); BlockSpec k = s.blocks[b];
            // operators: the block's, or others passed to the same rule, or none
            if (r.chance(0.6)) { k.conj = r.chance(0.15) ? "" : TNORMS[r.below(7)]; k.disj = r.chance(0.15) ? "" : SNORMS[r.below(9)]; }
            if (r.chance(0.1)) { q.weight = r.pick(std::vector<double>{0, 1, 0.5, 2.0, -0.25, NaN}); u->setWeight(q.weight); }
            std::unique_ptr<fl::TNorm> tn(k.conj.empty() ? nullptr : tf->constructObject(k.conj)); std::unique_ptr<fl::SNorm> sn(k.disj.empty() ? nullptr : sf->constructObject(k.disj));
            bool na = false, no = false; needs(q.ante, na, no); bool want = (na && k.conj.empty()) || (no && k.disj.empty());
            std::string d = "rule '" + q.text + "' weight " + num(q.weight) + " with conjunction " + k.conj + ", disjunction " + k.disj + ", inputs " + vecStr(m.in) + ", " + hist;
            c.note(d + specStr(s)); bool threw; double g = NaN; std::string before; for (size_t z = 0; z < s.out.size(); ++z) before += e->getOutputVariable(z)->fuzzyOutput()->toString();
            std::string ex = caught([&]() { g = u->activateWith(tn.get(), sn.get()); }, &threw);
            if (threw != want) { c.violation(want ? "missing-operator-unreported" : "throws", (want ? "a missing operator is not reported: " : "evaluation fails (" + ex + "): ") + d, specStr(s)); return; }
            if (threw) { if (ex.compare(0, 3, "fl:")) c.violation("exception", "not a library exception: " + ex); c.count("missing operators reported"); continue; }
            m.fragile = false; double w = m.cond(q, k);
            if (!m.bad.empty()) { c.violation("membership", m.bad, specStr(s)); return; }
            if (m.fragile) { c.count("too close to call"); continue; }
            if (!close(g, w, 1e-9)) { c.violation("degree", d + "evaluates to " + num(g) + ", by definition " + num(w), specStr(s)); return; }
            if (!same(u->getActivationDegree(), g)) c.violation("stored-degree", "activateWith returns " + num(g) + " but the rule holds " + num(u->getActivationDegree()));
            double a = u->getAntecedent()->activationDegree(tn.get(), sn.get());
            if (!close(q.weight * a, w, 1e-9)) c.violation("antecedent", d + "its antecedent evaluates to " + num(a), specStr(s));
            std::string after; for (size_t z = 0; z < s.out.size(); ++z) after += e->getOutputVariable(z)->fuzzyOutput()->toString();
            if (after != before) c.violation("side-effect", "evaluating an antecedent changes a fuzzy output: " + d);
            feat(s, q.ante, c, 0); c.count("degrees compared"); c.distinct(q.text + k.conj + k.disj + vecStr(m.in) + hist); if (g > 0 && g < 1) c.count("degrees strictly between 0 and 1");
        }
        // through the block: its own, possibly just replaced, operators
        size_t b = r.below((int) s.blocks.size()); BlockSpec& k = s.blocks[b]; fl::RuleBlock* rb = e->getRuleBlock(b);
        if (r.coin()) { k.conj = TNORMS[r.below(7)]; k.disj = SNORMS[r.below(9)]; rb->setConjunction(tf->constructObject(k.conj)); rb->setDisjunction(sf->constructObject(k.disj)); }
        m.fragile = false; std::string ex = caught([&]() { rb->activate(); }); if (!ex.empty()) { c.violation("throws", "activating a complete block fails: " + ex, specStr(s)); return; }
        m.accumulateHedges = true; // the contributions to the fuzzy outputs are P08's subject: take them over
        for (auto& q : k.rules) { bool pat = false; for (size_t z = 0; z + 1 < q.cons.size(); ++z) pat = pat || !q.cons[z].hedges.empty(); if (pat) m.frag("contributions"); }
        m.activateBlock(b, e.get());
        if (!m.fragile && m.bad.empty()) for (size_t i = 0; i < k.rules.size(); ++i) { c.count("block degrees compared"); if (!close(rb->getRule(i)->getActivationDegree(), m.rs[b][i].deg, 1e-9)) { c.violation("block-degree", "rule '" + k.rules[i].text + "' has degree " + num(rb->getRule(i)->getActivationDegree()) + " in its block, by definition " + num(m.rs[b][i].deg) + " inputs " + vecStr(m.in) + " " + hist, specStr(s)); return; } }
        m.resync(e.get());
        for (size_t z = 0; z < s.out.size(); ++z) { e->getOutputVariable(z)->fuzzyOutput()->clear(); m.out[z].fuzzy.clear(); }
        hist = "";
    }
    if (c.wantSample()) c.sample(s.blocks[0].rules[0].text);
}
Property vf::PROPERTY("P07", 9000, 300000, run, "antecedents of up to 8 levels over random engines, evaluated rule by rule with the block's, other and missing operators over hand-filled fuzzy outputs, and through the block; degree, stored degree, exception and absence of side effects compared with the definition; distinct counts rule+operators+inputs+accumulated activations",
    {{"degrees strictly between 0 and 1", 5000}, {"missing operators reported", 1000}, {"or nested in and", 1000}, {"propositions about disabled variables", 1000}, {"propositions about outputs", 5000}, {"any", 1000}});
