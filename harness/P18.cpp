#include "state.hpp"
using namespace vf;
static void inputs(Rng& r, const EngineSpec& s, std::vector<double>& x) { x.clear(); for (auto& v : s.in) x.push_back(r.chance(0.08) ? NaN : genInput(r, v, r.chance(0.1))); }
static void set(fl::Engine* e, const std::vector<double>& x) { for (size_t i = 0; i < x.size() && i < e->numberOfInputVariables(); ++i) e->getInputVariable(i)->setValue(x[i]); }
static std::string step(fl::Engine* e, const std::vector<double>& x) { set(e, x); std::string ex = caught([&]() { e->process(); }); return describe(e) + (ex.empty() ? "" : "process: " + ex.substr(0, ex.find('\n'))); }
static std::string disjoint(const fl::Engine* a, const fl::Engine* b) { auto x = owned(a), y = owned(b); for (auto p : x) if (p && y.count(p)) return "an object is shared between both engines"; return ""; }
static fl::Engine* other(Rng& r) { GenOpts g; g.heavy = 0.04; g.maxRules = 3; EngineSpec s = genEngine(r, g); fl::Engine* e = buildApi(s); std::vector<double> x; inputs(r, s, x); step(e, x); return e; }
static void engines(Ctx& c, Rng& r) {
    GenOpts g; g.large = 0.02; g.unloaded = true; g.disabled = 0.15; g.locks = 0.3; g.maxRules = 6; EngineSpec s = genEngine(r, g);
    std::unique_ptr<fl::Engine> a(buildApi(s)); std::string hist; std::vector<double> x;
    for (int k = r.below(4); k-- > 0;) { if (r.chance(0.4)) hist += mutate(a.get(), r, false) + "; "; inputs(r, s, x); step(a.get(), x); hist += "process; "; }
    for (int k = r.below(3); k-- > 0;) hist += mutate(a.get(), r, false) + "; ";
    if (r.chance(0.1)) for (auto b : a->ruleBlocks()) for (auto q : b->rules()) if (r.chance(0.2)) q->unload();
    std::string da = describe(a.get()), fa = a->toString(), d;
    if (!foreign(a.get()).empty()) c.violation("foreign", "source: " + foreign(a.get()), hist + specStr(s));
    std::unique_ptr<fl::Engine> b; int mode = r.below(8); const char* names[] = {"clone", "copy constructor", "assignment to a used engine", "assignment to an empty engine", "copy of a copy", "self-assignment", "move constructor", "move assignment"}; std::string mn = names[mode];
    c.note(mn + " after " + hist + specStr(s)); c.count(mn);
    std::unique_ptr<fl::Engine> w(a->clone());       // witness for the later computations
    switch (mode) {
        case 0: b.reset(a->clone()); break;
        case 1: b.reset(new fl::Engine(*a)); break;
        case 2: b.reset(other(r)); *b = *a; break;
        case 3: b.reset(new fl::Engine); *b = *a; break;
        case 4: { std::unique_ptr<fl::Engine> t(a->clone()); b.reset(new fl::Engine(*t)); if (r.coin()) { std::unique_ptr<fl::Engine> u(b->clone()); *b = *u; } break; }
        case 5: { fl::Engine& self = *a; *a = self; b.reset(a->clone()); break; }
        case 6: { auto before = owned(a.get(), false); before.erase(a.get()); b.reset(new fl::Engine(std::move(*a))); auto after = owned(b.get(), false); after.erase(b.get()); if (before != after) c.violation("move", "moving an engine replaces its parts", hist + specStr(s)); break; }
        default: { b.reset(r.coin() ? other(r) : new fl::Engine); *b = std::move(*a); }
    }
    std::string where = mn + " after " + hist + "\n" + specStr(s);
    if (!(d = diffText(da, describe(b.get()))).empty()) c.violation("copy-differs", "by " + mn + " the copy describes differently: " + d, where);
    if (b->toString() != fa) c.violation("copy-text", "by " + mn + " the copy prints differently: " + diffText(fa, b->toString()), where);
    if (!(d = foreign(b.get())).empty()) c.violation("foreign", "by " + mn + ": " + d, where);
    if (mode >= 6) {
        // the engine moved from can still be used, assigned and destroyed
        std::string m = caught([&]() { describe(a.get()); foreign(a.get()); a->toString(); if (r.coin()) a->process(); if (r.coin()) { *a = *b; } });
        if (!m.empty()) c.violation("moved-from", "using an engine moved from: " + m, where);
        if (r.coin()) a.reset(); else a.reset(b->clone());
    } else if (describe(a.get()) != da) c.violation("source-changed", "by " + mn + " the source changes: " + diffText(da, describe(a.get())), where);
    if (a.get() && !(d = disjoint(a.get(), b.get())).empty()) c.violation("shared", "by " + mn + ": " + d, where);
    if (!(d = disjoint(w.get(), b.get())).empty()) c.violation("shared", "by " + mn + ": " + d, where);
    c.count("engines copied"); c.distinct(where);
    // same computation
    for (int k = r.range(1, 3); k-- > 0;) {
        inputs(r, s, x); if (r.chance(0.15)) { if (a.get()) a->restart(); b->restart(); w->restart(); }
        std::string p = step(b.get(), x), q = step(w.get(), x), t = a.get() ? step(a.get(), x) : p; c.count("steps compared");
        if (p != t) { c.violation("computes-differently", "by " + mn + " the copy computes differently: " + diffText(t, p), vecStr(x) + where); return; }
        if (p != q) { c.violation("computes-differently", "by clone the copy computes differently: " + diffText(q, p), vecStr(x) + where); return; }
        if (p.find("process: ") == std::string::npos) c.count("steps processed");
    }
    // independence: change, process, reconfigure or destroy one of them
    bool first = r.coin(); std::unique_ptr<fl::Engine>& m = first && a.get() ? a : b; std::unique_ptr<fl::Engine>& o = &m == &a ? b : a;
    if (!o.get()) o.reset(w->clone());
    std::string before = describe(o.get()), ftext = o->toString(), mh;
    for (int k = r.range(1, 8); k-- > 0;) {
        std::string w2 = mutate(m.get(), r, true); mh += w2 + "; "; c.count("changes");
        if (r.chance(0.3)) { inputs(r, s, x); set(m.get(), x); caught([&]() { m->process(); }); mh += "process; "; }
        if (r.chance(0.1)) { m->restart(); mh += "restart; "; }
        std::string after = describe(o.get()); if (after != before) { c.violation("dependent", "changing one of the engines (" + w2 + ") changes the other: " + diffText(before, after), mh + where); return; }
    }
    if (r.coin()) { m.reset(); mh += "destroyed; "; }
    if (o->toString() != ftext || describe(o.get()) != before) { c.violation("dependent", "changing or destroying one of the engines changes the other: " + diffText(before, describe(o.get())), mh + where); return; }
    for (int k = r.range(1, 3); k-- > 0;) {
        inputs(r, s, x); std::string p = step(o.get(), x), q = step(w.get(), x); c.count("steps compared");
        if (p != q) { c.violation("dependent", "an engine computes differently after a change to its copy: " + diffText(q, p), mh + where); return; }
    }
    if (c.wantSample()) c.sample(where + "\nchanges: " + mh);
}
// a component without some of its optional parts, to be assigned over one that has them
static void strip(fl::OutputVariable* v, Rng& r) { if (!r.chance(0.3)) return; if (r.coin()) v->setDefuzzifier(nullptr); if (r.coin()) v->fuzzyOutput()->setAggregation(nullptr); if (r.chance(0.3)) v->setDescription(""); }
static void strip(fl::RuleBlock* b, Rng& r) { if (!r.chance(0.4)) return; if (r.coin()) b->setConjunction(nullptr); if (r.coin()) b->setDisjunction(nullptr); if (r.coin()) b->setImplication(nullptr); if (r.chance(0.3)) b->setActivation(nullptr); if (r.chance(0.3)) b->setDescription(""); }

static void parts(Ctx& c, Rng& r) {
    GenOpts g; g.disabled = 0.15; EngineSpec s = genEngine(r, g); std::unique_ptr<fl::Engine> e(buildApi(s)), e2(other(r)); std::vector<double> x; inputs(r, s, x); step(e.get(), x);
    int what = r.below(5); std::string d, where = specStr(s); c.note(where); c.distinct(where + std::to_string(what));
    if (what == 0) {
        fl::InputVariable* v = e->getInputVariable(r.below((int) e->numberOfInputVariables())); std::string dv = describeVar(v), tv = v->toString();
        std::unique_ptr<fl::InputVariable> k; int m = r.below(5);
        if (m == 0) k.reset(v->clone()); else if (m == 1) k.reset(new fl::InputVariable(*v)); else if (m == 2) { k.reset(e2->getInputVariable((size_t) 0)->clone()); *k = *v; } else if (m == 3) { fl::InputVariable t(*v); k.reset(new fl::InputVariable(std::move(t))); } else { k.reset(e2->getInputVariable((size_t) 0)->clone()); fl::InputVariable t(*v); *k = std::move(t); }
        c.count("input variables copied");
        if (describeVar(k.get()) != dv || k->toString() != tv) c.violation("variable-copy", "a copied input variable differs: " + diffText(dv, describeVar(k.get())), where);
        std::set<const void*> p, q; owned(v, p); owned(k.get(), q); for (auto z : p) if (q.count(z)) c.violation("variable-shared", "copies of a variable share a term", where);
        double y = genInput(r, s.in[0], false); if (k->fuzzify(y) != v->fuzzify(y)) c.violation("variable-copy", "a copied variable fuzzifies differently", where);
        fl::Variable* ch = r.coin() ? (fl::Variable*) k.get() : v; fl::Variable* st = ch == v ? (fl::Variable*) k.get() : v; std::string mh; for (int i = 0; i < 5; ++i) mh += mutateVar(ch, r, true) + "; "; if (describeVar(st) != dv) c.violation("variable-dependent", "changing a variable changes its copy: " + mh + diffText(dv, describeVar(st)), where);
    } else if (what == 1) {
        fl::OutputVariable* v = e->getOutputVariable(r.below((int) e->numberOfOutputVariables())); strip(v, r); std::string dv = describeVar(v), tv = v->toString();
        std::unique_ptr<fl::OutputVariable> k; int m = r.below(4); fl::OutputVariable* z = e2->getOutputVariable((size_t) 0);
        if (m == 0) k.reset(v->clone()); else if (m == 1) k.reset(new fl::OutputVariable(*v)); else if (m == 2) { k.reset(z->clone()); *k = *v; } else { k.reset(z->clone()); fl::OutputVariable t(*v); *k = std::move(t); }
        c.count("output variables copied");
        if (describeVar(k.get()) != dv || k->toString() != tv) c.violation("variable-copy", "a copied output variable differs: " + diffText(dv, describeVar(k.get())), where);
        std::set<const void*> p, q; owned(v, p); owned(k.get(), q); for (auto y : p) if (q.count(y)) c.violation("variable-shared", "copies of a variable share a part", where);
        for (auto& t : k->fuzzyOutput()->terms()) { bool own = false; for (auto u : k->terms()) own = own || u == t.getTerm(); if (!own) c.violation("foreign", "the fuzzy output of a copied variable refers to a term of the source", where); }
        std::string p1, p2; double v1 = NaN, v2 = NaN; if (v->isEnabled()) { p1 = caught([&]() { v->defuzzify(); v1 = v->getValue(); }); p2 = caught([&]() { k->defuzzify(); v2 = k->getValue(); }); if (p1.empty() != p2.empty() || !same(v1, v2)) c.violation("variable-copy", "a copied output defuzzifies to " + num(v2) + p2 + " instead of " + num(v1) + p1, where); }
        dv = describeVar(v); bool ck = r.coin(); fl::OutputVariable* ch = ck ? k.get() : v, * st = ck ? v : k.get(); dv = describeVar(st); std::string mh; ch->fuzzyOutput()->clear(); for (int i = 0; i < 5; ++i) mh += mutateVar(ch, r, r.coin() && ck) + "; "; if (describeVar(st) != dv) c.violation("variable-dependent", "changing a variable changes its copy: " + mh + diffText(dv, describeVar(st)), where);
    } else if (what == 2) {
        fl::RuleBlock* b = e->getRuleBlock(r.below((int) e->numberOfRuleBlocks())); strip(b, r); std::string tb = b->toString(); std::unique_ptr<fl::RuleBlock> k; int m = r.below(5); fl::RuleBlock* z = e2->getRuleBlock((size_t) 0);
        if (m == 0) k.reset(b->clone()); else if (m == 1) k.reset(new fl::RuleBlock(*b)); else if (m == 2) { k.reset(z->clone()); *k = *b; } else if (m == 3) { fl::RuleBlock t(*b); k.reset(new fl::RuleBlock(std::move(t))); } else { k.reset(z->clone()); fl::RuleBlock t(*b); *k = std::move(t); }
        c.count("rule blocks copied");
        if (k->toString() != tb) c.violation("block-copy", "a copied rule block prints differently: " + diffText(tb, k->toString()), where);
        for (size_t i = 0; i < b->numberOfRules(); ++i) { if (k->getRule(i)->isEnabled() != b->getRule(i)->isEnabled() || k->getRule(i)->getWeight() != b->getRule(i)->getWeight()) c.violation("block-copy", "a copied rule has another weight or enabled state", where); if (k->getRule(i)->isLoaded()) c.violation("block-copy", "a copied rule without engine is loaded", where); }
        std::set<const void*> p, q; owned(b, p); owned(k.get(), q); for (auto y : p) if (q.count(y)) c.violation("block-shared", "copies of a rule block share a part", where);
        // the copy can stand in for the source in a copy of the engine
        std::unique_ptr<fl::Engine> f(e->clone()); size_t at = 0; for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) if (e->getRuleBlock(i) == b) at = i;
        std::vector<std::pair<bool, double> > st; for (auto y : b->rules()) st.push_back(std::make_pair(y->isEnabled(), y->getWeight()));
        for (auto o : f->outputVariables()) o->fuzzyOutput()->clear();
        fl::RuleBlock* raw = k.release(); delete f->setRuleBlock(raw, at); for (size_t i = 0; i < raw->numberOfRules(); ++i) { if (b->getRule(i)->isLoaded()) raw->getRule(i)->load(f.get()); raw->getRule(i)->setEnabled(st[i].first); raw->getRule(i)->setWeight(st[i].second); raw->getRule(i)->deactivate(); b->getRule(i)->deactivate(); }
        inputs(r, s, x); std::string p1 = step(e.get(), x), p2 = step(f.get(), x); if (p1 != p2) c.violation("block-copy", "a copied rule block computes differently: " + diffText(p1, p2), where);
        std::string db = describeBlock(b); std::string mh; for (int i = 0; i < 6; ++i) mh += mutateBlock(raw, r, true) + "; "; if (describeBlock(b) != db) c.violation("block-dependent", "changing a rule block changes its copy: " + mh + diffText(db, describeBlock(b)), where);
    } else if (what == 3) {
        auto vs = e->variables(); fl::Variable* v = vs[r.below((int) vs.size())]; if (!v->numberOfTerms()) return;
        fl::Term* t = v->getTerm(r.below((int) v->numberOfTerms())); std::string dt = describeTerm(t); c.count("terms copied");
        std::unique_ptr<fl::Term> k(t->clone()); if (describeTerm(k.get()) != dt || k->toString() != t->toString()) c.violation("term-copy", "a copied term differs: " + diffText(dt, describeTerm(k.get())), where);
        for (int i = 0; i < 10; ++i) { double y = r.chance(0.1) ? NaN : r.real(v->getMinimum() - 1, v->getMaximum() + 1), p = t->membership(y), q = k->membership(y); if (!same(p, q)) c.violation("term-copy", "a copy of " + dt + " has membership " + num(q) + " instead of " + num(p), where); }
        bool m = r.coin(); std::string mh = mutateTerm(m ? k.get() : t, r); if (describeTerm(m ? t : k.get()) != dt) c.violation("term-dependent", "changing a term changes its copy: " + mh + " " + dt, where);
        if (fl::Function* f = dynamic_cast<fl::Function*>(t)) { fl::Function g("g", "1"); g = *f; if (describeTerm(&g) != describeTerm(f)) c.violation("term-copy", "an assigned function differs: " + diffText(describeTerm(f), describeTerm(&g)), where); f->unload(); if (!g.isLoaded() && m) c.violation("term-dependent", "unloading a function unloads its copy", where); }
        k.reset(); caught([&]() { t->membership(0.5); });
    } else {
        // fuzzy sets and activated terms as values
        fl::OutputVariable* v = e->getOutputVariable((size_t) 0); fl::Aggregated* f = v->fuzzyOutput(); std::string df = describeTerm(f); c.count("fuzzy sets copied");
        std::unique_ptr<fl::Aggregated> k(r.coin() ? f->clone() : new fl::Aggregated(*f)); fl::Aggregated as("x", 1, 2, new fl::Maximum); as = *f;
        if (describeTerm(k.get()) != df || describeTerm(&as) != df) c.violation("set-copy", "a copied fuzzy set differs: " + diffText(df, describeTerm(k.get())) + diffText(df, describeTerm(&as)), where);
        k->clear(); k->setAggregation(nullptr); as.addTerm(v->getTerm((size_t) 0), 0.5, nullptr); as.setRange(-9, 9); as.setName("q"); if (describeTerm(f) != df) c.violation("set-dependent", "changing a fuzzy set changes its copy: " + diffText(df, describeTerm(f)), where);
        fl::Activated act(v->getTerm((size_t) 0), 0.3, nullptr), b2(act); std::unique_ptr<fl::Activated> b3(act.clone()); act.setDegree(0.9); if (b2.getDegree() != 0.3 || b3->getDegree() != 0.3 || b3->getTerm() != act.getTerm()) c.violation("activated-copy", "a copied activated term differs", where);
    }
}
static void run(Ctx& c, Rng& r, long idx) { if (idx % 3 == 2) parts(c, r); else engines(c, r); }
Property vf::PROPERTY("P18", 4500, 120000, run, "generated engines (unloaded and disabled rules, altered weights, flags and parameters, processed histories) copied by clone, copy construction, assignment, chains of copies, self-assignment and moves: complete states, ownership and references compared, then identical steps, then changes to and destruction of one of them; also single variables, rule blocks, terms and fuzzy sets; distinct counts engines with histories",
    {{"engines copied", 2000}, {"steps compared", 8000}, {"steps processed", 2000}, {"changes", 10000}, {"move assignment", 200}, {"clone", 200}, {"copy constructor", 200}, {"assignment to a used engine", 200}, {"self-assignment", 200}, {"input variables copied", 150}, {"output variables copied", 150}, {"rule blocks copied", 150}, {"terms copied", 150}, {"fuzzy sets copied", 150}});
