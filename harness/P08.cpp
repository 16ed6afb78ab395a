#include "model.hpp"
using namespace vf;
struct A { const fl::Term* t; double d; const fl::TNorm* i; };
static std::vector<std::vector<A> > contents(const fl::Engine* e) { std::vector<std::vector<A> > v; for (size_t o = 0; o < e->numberOfOutputVariables(); ++o) { v.push_back({}); const fl::Aggregated* f = e->getOutputVariable(o)->fuzzyOutput(); for (size_t k = 0; k < f->numberOfTerms(); ++k) { const fl::Activated& a = f->getTerm(k); v.back().push_back(A{a.getTerm(), a.getDegree(), a.getImplication()}); } } return v; }
static std::string show(const std::vector<A>& v) { std::string s; for (auto& a : v) s += num(a.d) + "/" + (a.t ? a.t->getName() : "?") + (a.i ? "[" + a.i->className() + "] " : " "); return s; }
static std::string diff(const std::vector<std::vector<A> >& a, const std::vector<std::vector<A> >& b) {
    for (size_t o = 0; o < a.size(); ++o) { bool ok = a[o].size() == b[o].size(); for (size_t k = 0; ok && k < a[o].size(); ++k) ok = a[o][k].t == b[o][k].t && close(a[o][k].d, b[o][k].d, 1e-12) && a[o][k].i == b[o][k].i; if (!ok) return "output " + std::to_string(o) + " holds " + show(a[o]) + "instead of " + show(b[o]); }
    return "";
}
static std::string rest(const fl::Engine* e) {
    std::string s = outputsStr(e); for (size_t i = 0; i < e->numberOfInputVariables(); ++i) s += num(e->getInputVariable(i)->getValue()) + " ";
    for (size_t b = 0; b < e->numberOfRuleBlocks(); ++b) for (size_t i = 0; i < e->getRuleBlock(b)->numberOfRules(); ++i) s += num(e->getRuleBlock(b)->getRule(i)->getActivationDegree()) + " ";
    return s;
}
static void run(Ctx& c, Rng& r, long) {
    GenOpts o; o.maxRules = 5; o.maxOut = 4; o.functions = false; o.disabled = 0.2; o.hedges = 0.7; o.activations = false;
    EngineSpec s = genEngine(r, o);
    for (auto& b : s.blocks) for (auto& q : b.rules) { if (r.coin()) for (size_t i = 0; i + 1 < q.cons.size(); ++i) q.cons[i].hedges.clear(); q.text = ruleText(s, q, nullptr); }
    std::unique_ptr<fl::Engine> e(buildApi(s)); std::string hist;
    std::vector<std::unique_ptr<fl::TNorm> > impls; for (int i = 0; i < 3; ++i) impls.emplace_back(fl::FactoryManager::instance()->tnorm()->constructObject(TNORMS[r.below(7)]));
    for (size_t i = 0; i < s.in.size(); ++i) e->getInputVariable(i)->setValue(genInput(r, s.in[i], false));
    for (int step = 0; step < 12; ++step) {
        size_t b = r.below((int) s.blocks.size()); size_t i = r.below((int) s.blocks[b].rules.size()); RuleSpec& q = s.blocks[b].rules[i]; fl::Rule* u = e->getRuleBlock(b)->getRule(i);
        if (r.chance(0.2)) { int k = r.below((int) s.out.size()); s.out[k].enabled = !s.out[k].enabled; e->getOutputVariable(k)->setEnabled(s.out[k].enabled); }
        if (r.chance(0.1)) e->getOutputVariable(r.below((int) s.out.size()))->fuzzyOutput()->clear();
        if (r.chance(0.2)) { q.enabled = !q.enabled; u->setEnabled(q.enabled); }
        bool loaded = !r.chance(0.1); if (!loaded) u->unload();
        double d = r.chance(0.1) ? 0.0 : r.chance(0.1) ? 1.0 : r.chance(0.05) ? NaN : r.chance(0.05) ? r.pick(std::vector<double>{-0.5, 1e-7, 2.0, 1e-5}) : r.unit();
        const fl::TNorm* impl = r.chance(0.2) ? nullptr : r.coin() ? e->getRuleBlock(b)->getImplication() : impls[r.below(3)].get(); bool direct = r.chance(0.3);
        u->setActivationDegree(d); u->setTriggered(false);
        std::vector<std::vector<A> > before = contents(e.get()), want = before, acc = before; std::string st = rest(e.get());
        bool fires = loaded && (direct || (q.enabled && mGt(d, 0.0)));
        if (fires) { double x = d; for (auto& p : q.cons) { if (!s.out[p.var].enabled) continue; const fl::Term* t = e->getOutputVariable(p.var)->getTerm(p.term); double y = d; for (size_t n = p.hedges.size(); n-- > 0;) { y = hedgeDef(p.hedges[n], y); x = hedgeDef(p.hedges[n], x); } want[p.var].push_back(A{t, y, impl}); acc[p.var].push_back(A{t, x, impl}); } }
        std::string what = (direct ? "modifying by" : "triggering") + std::string(" '") + q.text + "' degree " + num(d) + (q.enabled ? "" : " disabled") + (loaded ? "" : " unloaded"); hist += what + "; "; c.note(hist + specStr(s));
        bool threw; std::string ex = caught([&]() { if (direct) u->getConsequent()->modify(d, impl); else u->trigger(impl); }, &threw);
        if (threw == loaded) { c.violation("exception", threw ? what + " fails: " + ex : what + " does not report that the rule is not loaded", specStr(s)); return; }
        std::vector<std::vector<A> > after = contents(e.get()); std::string df = diff(after, want), da = diff(after, acc); bool range = d >= 0 && d <= 1;
        if (!df.empty() && da.empty() && range) c.violation("kf:consequent-hedges-accumulate", what + ": " + df, specStr(s));
        else if (!df.empty() && range) { c.violation(loaded ? "contributions" : "unloaded-contributes", what + ": " + df, specStr(s) + hist); return; }
        else if (!range) for (size_t k = 0; k < after.size(); ++k) if (after[k].size() != want[k].size()) { c.violation("count", what + ": output " + std::to_string(k) + " holds " + show(after[k]), specStr(s) + hist); return; }
        if (!direct && u->isTriggered() != fires) { c.violation("triggered", what + " leaves the rule " + (u->isTriggered() ? "triggered" : "not triggered"), specStr(s)); return; }
        if (rest(e.get()) != st) { c.violation("side-effect", what + " changes a value, a previous value or another rule's degree:\n" + st + "\n" + rest(e.get()), specStr(s)); return; }
        if (!loaded) { u->load(e.get()); q.enabled = true; q.weight = u->getWeight(); c.count("unloaded rules refused"); }
        if (fires) { c.count("firings"); c.count("conclusions", (long) q.cons.size()); if (q.cons.size() > 1) { std::set<int> vs; bool dis = false; for (auto& p : q.cons) { vs.insert(p.var); dis = dis || !s.out[p.var].enabled; } if (vs.size() > 1) c.count("firings with conclusions about several outputs"); if (vs.size() < q.cons.size()) c.count("firings with several conclusions about one output"); if (dis) c.count("firings with a disabled output among several"); } c.distinct(q.text + num(d) + (impl ? impl->className() : "")); }
        else if (loaded) c.count("refused firings");
    }
    if (c.wantSample()) c.sample(hist);
}
Property vf::PROPERTY("P08", 20000, 500000, run, "rules of random engines given a degree and triggered (or their consequent applied) over fuzzy outputs that already hold activations, with outputs and rules being disabled and unloaded; complete contents of every fuzzy output and everything else compared before and after; distinct counts rule+degree+implication",
    {{"firings", 20000}, {"firings with conclusions about several outputs", 1000}, {"firings with several conclusions about one output", 1000}, {"firings with a disabled output among several", 500}, {"unloaded rules refused", 1000}});
