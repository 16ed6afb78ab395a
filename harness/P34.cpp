#include "state.hpp"
using namespace vf;
// parts that fail at the k-th use while armed
struct Fault { long left = 0; bool armed = false, fired = false; int kind = 0; std::string msg; long seen = 0; std::map<std::string, long> at;
    void hit(const char* where) { ++seen; if (!armed) return; if (left-- > 0) return; if (fired) return; fired = true; msg = std::string("injected into ") + where; ++at[where];
        switch (kind) { case 0: throw fl::Exception(msg, FL_AT); case 1: throw std::runtime_error(msg); case 2: throw std::bad_alloc(); default: throw std::logic_error(msg); } } };
static Fault* F = nullptr;
struct FT : fl::TNorm { std::unique_ptr<fl::TNorm> in; explicit FT(fl::TNorm* i) : in(i) {} std::string className() const override { return in->className(); } fl::scalar compute(fl::scalar a, fl::scalar b) const override { if (F) F->hit("a T-norm"); return in->compute(a, b); } FT* clone() const override { return new FT(in->clone()); } };
struct FS : fl::SNorm { std::unique_ptr<fl::SNorm> in; explicit FS(fl::SNorm* i) : in(i) {} std::string className() const override { return in->className(); } fl::scalar compute(fl::scalar a, fl::scalar b) const override { if (F) F->hit("an S-norm"); return in->compute(a, b); } FS* clone() const override { return new FS(in->clone()); } };
struct FH : fl::Hedge { std::unique_ptr<fl::Hedge> in; explicit FH(fl::Hedge* i) : in(i) {} std::string name() const override { return in->name(); } fl::scalar hedge(fl::scalar x) const override { if (F) F->hit("a hedge"); return in->hedge(x); } FH* clone() const override { return new FH(in->clone()); } };
struct FD : fl::Defuzzifier { std::unique_ptr<fl::Defuzzifier> in; explicit FD(fl::Defuzzifier* i) : in(i) {} std::string className() const override { return in->className(); } fl::scalar defuzzify(const fl::Term* t, fl::scalar a, fl::scalar b) const override { if (F) F->hit("a defuzzifier"); return in->defuzzify(t, a, b); } FD* clone() const override { return new FD(in->clone()); } };
struct FAct : fl::Activation { std::unique_ptr<fl::Activation> in; explicit FAct(fl::Activation* i) : in(i) {} std::string className() const override { return in->className(); } std::string parameters() const override { return in->parameters(); } void configure(const std::string& p) override { in->configure(p); }
    void activate(fl::RuleBlock* b) override { if (F) F->hit("an activation method"); in->activate(b); if (F) F->hit("an activation method"); } FAct* clone() const override { return new FAct(in->clone()); } };
struct FM : fl::Term { std::unique_ptr<fl::Term> in; explicit FM(fl::Term* i) : fl::Term(i->getName(), i->getHeight()), in(i) {} std::string className() const override { return in->className(); } std::string parameters() const override { return in->parameters(); } void configure(const std::string& p) override { in->configure(p); } fl::scalar membership(fl::scalar x) const override { if (F) F->hit("a term"); return in->membership(x); }
    bool isMonotonic() const override { return in->isMonotonic(); } fl::scalar tsukamoto(fl::scalar y) const override { if (F) F->hit("a term"); return in->tsukamoto(y); } void updateReference(const fl::Engine* e) override { in->updateReference(e); } FM* clone() const override { return new FM(in->clone()); } };
static void wrapHedges(fl::Expression* x) { if (!x) return; if (x->type() == fl::Expression::Proposition) { for (auto& h : static_cast<fl::Proposition*>(x)->hedges) if (!dynamic_cast<fl::Any*>(h)) h = new FH(h); } else { wrapHedges(static_cast<fl::Operator*>(x)->left); wrapHedges(static_cast<fl::Operator*>(x)->right); } }
static void wrap(fl::Engine* e, bool outTerms) {
    for (auto v : e->inputVariables()) for (auto& t : v->terms()) t = new FM(t);
    for (auto v : e->outputVariables()) { if (outTerms) for (auto& t : v->terms()) { bool ts = dynamic_cast<fl::Constant*>(t) || dynamic_cast<fl::Linear*>(t) || dynamic_cast<fl::Function*>(t); if (!ts) t = new FM(t); }
        if (v->getDefuzzifier()) { fl::Defuzzifier* d = v->getDefuzzifier()->clone(); v->setDefuzzifier(new FD(d)); } if (v->getAggregation()) { fl::SNorm* s = v->getAggregation()->clone(); v->setAggregation(new FS(s)); } }
    for (auto b : e->ruleBlocks()) { if (b->getConjunction()) { auto t = b->getConjunction()->clone(); b->setConjunction(new FT(t)); } if (b->getDisjunction()) { auto t = b->getDisjunction()->clone(); b->setDisjunction(new FS(t)); } if (b->getImplication()) { auto t = b->getImplication()->clone(); b->setImplication(new FT(t)); } if (b->getActivation()) { auto t = b->getActivation()->clone(); b->setActivation(new FAct(t)); }
        for (auto q : b->rules()) if (q->isLoaded()) { wrapHedges(q->getAntecedent()->getExpression()); for (auto p : q->getConsequent()->conclusions()) for (auto& h : p->hedges) if (!dynamic_cast<fl::Any*>(h)) h = new FH(h); } }
    // references to the replaced terms
    for (auto b : e->ruleBlocks()) for (auto q : b->rules()) if (q->isLoaded()) { std::function<void(fl::Expression*)> fix = [&](fl::Expression* x) { if (!x) return; if (x->type() == fl::Expression::Proposition) { auto p = static_cast<fl::Proposition*>(x); for (auto t : p->variable->terms()) if (auto m = dynamic_cast<FM*>(t)) if (m->in.get() == p->term) p->term = t; } else { fix(static_cast<fl::Operator*>(x)->left); fix(static_cast<fl::Operator*>(x)->right); } }; fix(q->getAntecedent()->getExpression()); for (auto p : q->getConsequent()->conclusions()) fix(p); }
}
struct Pair { std::unique_ptr<fl::Engine> s, c; };
static std::vector<double> vec(Rng& r, const EngineSpec& q) { std::vector<double> v; for (auto& i : q.in) v.push_back(r.chance(0.05) ? NaN : genInput(r, i, r.chance(0.1))); return v; }
static void set(fl::Engine* e, const std::vector<double>& v) { for (size_t i = 0; i < v.size(); ++i) e->getInputVariable(i)->setValue(v[i]); }
static bool stateful(const EngineSpec& q) { for (auto& v : q.out) { if (v.lockPrev) return true; for (auto& t : v.terms) if (t.cls == "Function") return true; } for (auto& v : q.in) for (auto& t : v.terms) if (t.cls == "Function") return true; return false; }
// the same from here on?
static void equalFromHere(Ctx& c, Rng& r, const EngineSpec& q, Pair& p, const std::string& key, const std::string& what, bool restart) {
    if (restart || stateful(q)) { p.s->restart(); p.c->restart(); c.count("restarts after a failure"); }
    for (int k = 0; k < 3; ++k) {
        std::vector<double> v = vec(r, q); set(p.s.get(), v); set(p.c.get(), v); std::string a = caught([&]() { p.s->process(); }), b = caught([&]() { p.c->process(); });
        if (a.substr(0, 60) != b.substr(0, 60)) { c.violation(key, "after " + what + " and its repair, processing " + vecStr(v) + (a.empty() ? " works" : " raises " + a) + " instead of " + (b.empty() ? "working" : b), specStr(q)); return; }
        if (!a.empty()) { c.count("steps raising"); return; }
        std::string x = outputsStr(p.s.get()), y = outputsStr(p.c.get()); if (k) x = describe(p.s.get()), y = describe(p.c.get());
        c.count("steps compared after a failure");
        if (x != y) { if (!k) { auto val = [](fl::Engine* e) { std::string s; for (auto o : e->outputVariables()) s += num(o->getValue()) + " " + o->fuzzyOutputValue() + ";"; return s; }; x = val(p.s.get()); y = val(p.c.get()); if (x == y) continue; }
            c.violation(key, "after " + what + " and its repair the engine is not as one on which it never happened: " + diffText(x, y), specStr(q)); return; }
    }
}
static Pair build(const EngineSpec& q, bool w, bool outTerms = false) { Pair p; p.s.reset(buildApi(q)); p.c.reset(buildApi(q)); if (w) { wrap(p.s.get(), outTerms); wrap(p.c.get(), outTerms); } return p; }
static bool weighted(const EngineSpec& q) { for (auto& v : q.out) if (!isIntegral(v.defuzz)) return true; return false; }
static GenOpts opts(Rng& r) { GenOpts g; g.heavy = 0.04; g.maxRules = 5; g.maxIn = 3; g.maxTerms = 4; g.maxRes = 30; g.locks = r.chance(0.3) ? 0.3 : 0; g.functions = r.chance(0.3); return g; }
static std::string lower(std::string s) { for (auto& ch : s) ch = (char) tolower((unsigned char) ch); return s; }
static void report(Ctx& c, const std::string& key, const std::string& what, const std::string& w) { c.count("failures reported"); if (w.size() <= 4) c.violation(key + ":message", what + " is reported by an exception without a message"); }
static std::string ownMsg(const std::string& w) { return w.substr(0, w.find('\n')); }
// 0: a part fails while the engine is processed, exported to a dataset or benchmarked
static void injected(Ctx& c, Rng& r) {
    GenOpts g = opts(r); EngineSpec q = genEngine(r, g); c.note(specStr(q)); Fault f; Pair p = build(q, true, !weighted(q)); std::vector<double> v = vec(r, q);
    struct Guard { ~Guard() { F = nullptr; } } guard; F = &f;
    for (int k = r.below(3); k-- > 0;) { v = vec(r, q); set(p.s.get(), v); set(p.c.get(), v); caught([&]() { p.s->process(); }); caught([&]() { p.c->process(); }); }
    v = vec(r, q); set(p.s.get(), v); f.seen = 0; caught([&]() { p.s->process(); }); long uses = f.seen; if (p.c) { set(p.c.get(), v); caught([&]() { p.c->process(); }); } if (!uses) return;
    int times = r.range(1, 3);
    for (int t = 0; t < times; ++t) {
        f.kind = r.below(4); f.left = r.chance(0.3) ? uses - 1 - r.below((int) std::min(uses, 3L)) : (long) (r.unit() * uses); f.fired = false; f.armed = true; int how = r.below(4); std::string w, what; bool drop = false;
        std::unique_ptr<fl::Engine>& s = p.s;
        if (how <= 1 || !s->numberOfInputVariables()) { what = "a failure while processing"; w = caught([&]() { s->process(); }); }
        else if (how == 2) { what = "a failure while exporting a dataset"; w = caught([&]() { fl::FldExporter().toString(s.get(), 8, fl::FldExporter::AllVariables); }); drop = true; }
        else { what = "a failure while benchmarking"; fl::Benchmark b("b", s.get()); w = caught([&]() { b.prepare(5, fl::FldExporter::AllVariables); b.run(r.range(1, 3)); }); bool fired = f.fired; f.armed = false; drop = true;
            if (fired) { bool two = caught([&]() { b.run(1); }).empty(); if (two) { std::vector<std::vector<double> > got = b.getObtained(); fl::Benchmark b2("b", p.c.get()); caught([&]() { b2.prepare(5, fl::FldExporter::AllVariables); b2.run(1); }); c.count("benchmarks repeated after a failure"); if (!stateful(q)) for (size_t i = 0; i < got.size() && i < b2.getObtained().size(); ++i) if (vecStr(got[i]) != vecStr(b2.getObtained()[i])) { c.violation("benchmark", "repeating a benchmark after a failure gives " + vecStr(got[i]) + " instead of " + vecStr(b2.getObtained()[i]), specStr(q)); break; } } } }
        f.armed = false;
        if (f.fired && w.empty()) c.violation("swallowed", what + " (" + f.msg + ") is not reported", specStr(q));
        if (f.fired) { report(c, "injected", what, w); c.count("injected failures"); for (auto& x : f.at) c.count("failing " + x.first, x.second); f.at.clear(); if (f.kind != 2 && w.find("injected") == std::string::npos) c.violation("injected:lost", what + " (" + f.msg + ") is reported as " + ownMsg(w), specStr(q)); c.distinct(f.msg + std::to_string(f.left) + specStr(q)); if (c.wantSample()) c.sample(what + ": " + ownMsg(w) + " in " + specStr(q)); }
        if (r.chance(0.2)) { std::unique_ptr<fl::Engine> k(s->clone()); k->restart(); Pair pp; pp.s = std::move(k); pp.c.reset(p.c->clone()); pp.c->restart(); std::vector<double> z = vec(r, q); set(pp.s.get(), z); set(pp.c.get(), z); std::string a = caught([&]() { pp.s->process(); }), b = caught([&]() { pp.c->process(); }); c.count("copies after a failure"); if (a.substr(0, 50) != b.substr(0, 50) || outputsStr(pp.s.get()) != outputsStr(pp.c.get())) c.violation("copy", "a copy made after " + what + " computes something else", specStr(q)); }
        (void) drop;
        equalFromHere(c, r, q, p, "injected", what + " (" + f.msg + ")", r.coin());
    }
}
// 1: an operator is missing
static void missing(Ctx& c, Rng& r) {
    GenOpts g = opts(r); g.kind = r.chance(0.7) ? 0 : -1; EngineSpec q = genEngine(r, g); c.note(specStr(q)); Pair p = build(q, false); bool ran = r.coin(); std::vector<double> v;
    if (ran) for (int k = 0; k < 2; ++k) { v = vec(r, q); set(p.s.get(), v); set(p.c.get(), v); p.s->process(); p.c->process(); }
    v = vec(r, q); std::function<void()> repair; std::string what; bool need = true;
    int kind = r.below(6); BlockSpec* b = q.blocks.empty() ? nullptr : &q.blocks[r.below((int) q.blocks.size())]; int bi = b ? (int) (b - &q.blocks[0]) : 0, oi = r.below((int) q.out.size());
    auto clearAll = [&]() { for (auto o : p.s->outputVariables()) o->fuzzyOutput()->clear(); for (auto o : p.c->outputVariables()) o->fuzzyOutput()->clear(); };
    if (kind <= 2 && b) { fl::RuleBlock* k = p.s->getRuleBlock(bi); clearAll();
        if (kind == 0) { what = "a missing conjunction"; k->setConjunction(nullptr); repair = [=]() { if (!b->conj.empty()) k->setConjunction(fl::FactoryManager::instance()->tnorm()->constructObject(b->conj)); }; }
        else if (kind == 1) { what = "a missing disjunction"; k->setDisjunction(nullptr); repair = [=]() { if (!b->disj.empty()) k->setDisjunction(fl::FactoryManager::instance()->snorm()->constructObject(b->disj)); }; }
        else { what = "a missing implication"; k->setImplication(nullptr); repair = [=]() { if (!b->impl.empty()) k->setImplication(fl::FactoryManager::instance()->tnorm()->constructObject(b->impl)); }; } }
    else if (kind == 3) { fl::OutputVariable* o = p.s->getOutputVariable(oi); what = "a missing defuzzifier"; o->setDefuzzifier(nullptr); repair = [&, o]() { o->setDefuzzifier(buildDefuzzifier(q.out[oi])); }; }
    else if (kind == 4) { fl::OutputVariable* o = p.s->getOutputVariable(oi); what = "a missing aggregation"; if (q.out[oi].agg.empty()) return; o->setAggregation(nullptr); need = false; repair = [&, o]() { o->setAggregation(fl::FactoryManager::instance()->snorm()->constructObject(q.out[oi].agg)); }; }
    else { // a term that cannot be evaluated
        fl::Engine* e = p.s.get(); int ii = r.below((int) q.in.size()); if (q.in.empty() || q.in[ii].terms.empty()) return; fl::InputVariable* x = e->getInputVariable(ii); int ti = r.below((int) q.in[ii].terms.size()); (void) x; std::vector<fl::Discrete*> ds; for (auto i : e->inputVariables()) for (auto t : i->terms()) if (auto d = dynamic_cast<fl::Discrete*>(t)) ds.push_back(d); for (auto o : e->outputVariables()) for (auto t : o->terms()) if (auto d = dynamic_cast<fl::Discrete*>(t)) ds.push_back(d);
        std::vector<fl::Linear*> ls; for (auto o : e->outputVariables()) for (auto t : o->terms()) if (auto d = dynamic_cast<fl::Linear*>(t)) ls.push_back(d); (void) ti;
        if (!ds.empty() && (ls.empty() || r.coin())) { fl::Discrete* d = ds[r.below((int) ds.size())]; std::vector<fl::Discrete::Pair> xy = d->xy(); what = "a discrete term without points"; d->setXY(std::vector<fl::Discrete::Pair>()); repair = [=]() { d->setXY(xy); }; }
        else if (!ls.empty()) { fl::Linear* l = ls[r.below((int) ls.size())]; what = "a linear term without engine"; l->setEngine(nullptr); repair = [=]() { l->setEngine(e); }; }
        else return; }
    set(p.s.get(), v); set(p.c.get(), v); std::string w = caught([&]() { p.s->process(); }); std::string w2 = caught([&]() { p.c->process(); }); c.count(what); if (w2.empty() != true) return;
    if (w.empty()) { // not needed for these values: the same results
        if (need && !stateful(q)) { std::string x = outputsStr(p.s.get()), y = outputsStr(p.c.get()); c.count("parts not needed"); if (x != y) c.violation("unreported:" + what.substr(2), what + " changes the results for " + vecStr(v) + " without being reported: " + diffText(x, y), specStr(q)); } }
    else { report(c, "missing", what, w); c.count("missing parts reported"); std::string n = what.substr(what.find("missing") == std::string::npos ? what.find(' ') + 1 : 10); if (what.find("missing") != std::string::npos && lower(w).find(n) == std::string::npos) c.violation("missing:message", what + " is reported without naming it: " + ownMsg(w), specStr(q)); }
    for (int k = r.below(3); k-- > 0;) { set(p.s.get(), v); caught([&]() { p.s->process(); }); }
    clearAll(); repair(); equalFromHere(c, r, q, p, "missing", what, r.coin() || w.empty());
}
static std::string corrupt(Rng& r, const std::string& t) {
    size_t th = t.find(" then "); std::string a = t.substr(0, th), b = t.substr(th + 6); size_t wi = b.find(" with "); std::string cons = b.substr(0, wi);
    switch (r.below(12)) {
        case 0: return "iff " + t.substr(3); case 1: return a; case 2: return a + " then " + cons + " with"; case 3: return a + " then " + cons + " with heavy"; case 4: return a + " then nosuch is thing"; case 5: return "if nosuch is thing then " + cons; case 6: return "if"; case 7: return a + " then " + cons + " with 1.000 2.000";
        case 8: return a + " and then " + cons; case 9: return a + " then " + cons.substr(0, cons.find(" is ")) + " is nosuchterm"; case 10: return a + " then " + cons + " and"; default: return a + " or nosuch is low then " + cons; }
}
// 2: some rules of a block cannot be loaded
static void rules(Ctx& c, Rng& r) {
    GenOpts g = opts(r); g.maxRules = 8; g.unloaded = false; g.disabled = 0; EngineSpec q = genEngine(r, g); if (q.blocks.empty()) return; c.note(specStr(q)); Pair p = build(q, false); int bi = r.below((int) q.blocks.size()); fl::RuleBlock* b = p.s->getRuleBlock(bi); size_t n = b->numberOfRules(); if (!n) return;
    std::vector<bool> bad(n); std::string texts; double pr = r.pick(std::vector<double>{0.1, 0.4, 0.8}); std::vector<std::string> own(n);
    for (size_t i = 0; i < n; ++i) { bad[i] = r.chance(pr); if (bad[i]) { b->getRule(i)->setText(corrupt(r, q.blocks[bi].rules[i].text)); texts += b->getRule(i)->getText() + "\n"; fl::Rule x; own[i] = caught([&]() { x.load(b->getRule(i)->getText(), p.s.get()); }); if (own[i].empty()) c.violation("accepted", "the rule '" + b->getRule(i)->getText() + "' is loaded", specStr(q)); if (x.isLoaded()) c.violation("halfloaded", "a rule that failed to load counts as loaded: " + b->getRule(i)->getText()); } }
    int how = r.below(3); if (r.coin()) b->unloadRules(); std::string w = caught([&]() { if (how == 1) b->reloadRules(p.s.get()); else b->loadRules(p.s.get()); }); bool any = false; for (bool x : bad) any = any || x; c.count("blocks loaded"); c.distinct(texts + std::to_string(how));
    if (any == w.empty()) c.violation("loadrules", w.empty() ? "no failure is reported although rules cannot be loaded:\n" + texts : "a failure is reported although all rules can be loaded: " + w, specStr(q)); if (any) report(c, "loadrules", "a failure to load rules", w);
    size_t pos = 0; for (size_t i = 0; i < n; ++i) { fl::Rule* u = b->getRule(i); if (u->isLoaded() == bad[i]) c.violation("loaded", "rule '" + u->getText() + "' is" + (bad[i] ? "" : " not") + " loaded after loading the rules of its block:\n" + texts, specStr(q)); c.count(bad[i] ? "bad rules" : "good rules beside bad ones");
        if (bad[i] && !own[i].empty()) { std::string m = own[i].substr(3); m = m.substr(0, m.find("\n")); size_t at = w.find(m.substr(0, m.find(" {at")), pos); if (at == std::string::npos) c.violation("report", "the failure of rule '" + u->getText() + "' (" + m + ") is not reported in: " + w, specStr(q)); else pos = at + 1; }
        if (bad[i] && (u->getAntecedent() && u->getAntecedent()->getExpression())) c.violation("leftover", "rule '" + u->getText() + "' failed to load but keeps a parsed antecedent"); }
    // the good ones work: as in an engine without the bad ones
    { EngineSpec z = q; for (size_t i = 0; i < n; ++i) if (bad[i]) z.blocks[bi].rules[i].loaded = false; std::unique_ptr<fl::Engine> e(buildApi(z)); std::vector<double> v = vec(r, q); set(p.s.get(), v); set(e.get(), v); p.s->restart(); set(p.s.get(), v); std::string x = caught([&]() { p.s->process(); }), y = caught([&]() { e->process(); }); c.count("engines processed with bad rules"); if (x.substr(0, 40) != y.substr(0, 40) || (x.empty() && outputsStr(p.s.get()) != outputsStr(e.get()))) c.violation("others", "with some rules that cannot be loaded, processing " + vecStr(v) + " gives " + x + diffText(outputsStr(p.s.get()), outputsStr(e.get())) + " compared to an engine without them", specStr(q)); }
    for (size_t i = 0; i < n; ++i) if (bad[i]) b->getRule(i)->setText(q.blocks[bi].rules[i].text);
    w = caught([&]() { if (how == 2) for (auto u : b->rules()) u->load(p.s.get()); else b->loadRules(p.s.get()); }); if (!w.empty()) c.violation("reload", "rules cannot be loaded after their repair: " + w, specStr(q));
    equalFromHere(c, r, q, p, "rules", "failing to load rules", true);
}
static EngineSpec smallSpec(Rng& r) { GenOpts g; g.maxRules = 3; g.maxIn = 2; g.maxOut = 2; g.maxTerms = 3; g.maxRes = 20; return genEngine(r, g); }
// 3: imports and exports that fail
static void files(Ctx& c, Rng& r) {
    EngineSpec q = smallSpec(r); c.note(specStr(q)); std::unique_ptr<fl::Engine> e(buildApi(q)); if (r.coin()) { set(e.get(), vec(r, q)); e->process(); } std::string before = describe(e.get()), good = toFll(q); int fmt = r.below(3); std::string fis, fcl; caught([&]() { fis = fl::FisExporter().toString(e.get()); }); caught([&]() { fcl = fl::FclExporter().toString(e.get()); });
    std::string text = fmt == 0 ? good : fmt == 1 ? fis : fcl; std::unique_ptr<fl::Importer> im(fmt == 0 ? (fl::Importer*) new fl::FllImporter : fmt == 1 ? (fl::Importer*) new fl::FisImporter : (fl::Importer*) new fl::FclImporter);
    if (!text.empty()) {
        static const std::vector<std::string> B[3] = {{"\n  unknown: 1", "\nterm: x Triangle 1", "\n  range: a b", "Oops", "\n  conjunction: NoSuchNorm", "\nInputVariable: z\n  enabled: maybe", "\nOutputVariable: z\n  aggregation: NoSuch", "\nRuleBlock: z\n  implication: NoSuch", "\nOutputVariable: z\n  defuzzifier: NoSuch 10"}, {"\n[Nonsense]\nx=1", "\nOops", "\n[Input9]\nName='z'\nRange=[a b]", "\n[System]\nUnknown='x'", "\n[Input9]\nName='z'\nMF1='a':'nosuchmf',[0 1]", "\n[Rules]\n1 2 3 4 5, 6 (1) : 1"}, {"\nFUZZIFY nosuch\nTERM a := 1;\nEND_FUZZIFY", "\nOops", "\nVAR_INPUT\nz: REAL\nEND_VAR\nFUZZIFY z\nTERM a := Nonsense 1;\nEND_FUZZIFY", "\nRULEBLOCK z\nAND : NOSUCH;\nEND_RULEBLOCK", "\nDEFUZZIFY nosuch\nEND_DEFUZZIFY"}};
        std::string badText = text; size_t nl = r.chance(0.5) ? std::string::npos : badText.find('\n', r.below((int) badText.size())); if (nl == std::string::npos) badText += r.pick(B[fmt]) + "\n"; else badText.insert(nl, r.pick(B[fmt]));
        std::string w = caught([&]() { std::unique_ptr<fl::Engine> x(im->fromString(badText)); }); if (!w.empty()) { report(c, "import", "a failing import", w); c.count("failing imports"); c.distinct(badText); }
        std::string a, b, wa = caught([&]() { std::unique_ptr<fl::Engine> x(im->fromString(text)); a = describe(x.get()); }), wb; std::unique_ptr<fl::Importer> fresh(fmt == 0 ? (fl::Importer*) new fl::FllImporter : fmt == 1 ? (fl::Importer*) new fl::FisImporter : (fl::Importer*) new fl::FclImporter); wb = caught([&]() { std::unique_ptr<fl::Engine> x(fresh->fromString(text)); b = describe(x.get()); });
        if (a != b || wa != wb) c.violation("import:after", "after a failed import the importer reads something else: " + diffText(a, b) + wa + " | " + wb, badText); c.count("importers reused after a failure"); }
    std::string dir = scratchDir() + "/nosuch/"; std::string w;
    std::unique_ptr<fl::Exporter> ex; switch (r.below(6)) { case 0: ex.reset(new fl::FllExporter); break; case 1: ex.reset(new fl::FldExporter); break; case 2: ex.reset(new fl::CppExporter); break; case 3: ex.reset(new fl::JavaExporter); break; case 4: ex.reset(new fl::FclExporter); break; default: ex.reset(new fl::FisExporter); }
    w = caught([&]() { im->fromFile(dir + "x." + im->name()); }); if (w.empty()) c.violation("file", "importing a file that does not exist is not reported"); else report(c, "file", "importing a missing file", w); if (w.find("nosuch") == std::string::npos) c.violation("file:name", "the message of a missing file does not name it: " + w);
    w = caught([&]() { ex->toFile(dir + "out", e.get()); }); if (w.empty()) c.violation("file", ex->name() + " to a file that cannot be written is not reported"); else report(c, "file", "exporting to a folder that does not exist", w); c.count("unwritable or missing files");
    if (r.coin()) { fl::FldExporter f; w = caught([&]() { f.toFile(dir + "o", e.get(), 10, fl::FldExporter::AllVariables); }); if (w.empty()) c.violation("file", "a dataset to a file that cannot be written is not reported"); fl::RScriptExporter rs; if (e->numberOfInputVariables()) { w = caught([&]() { rs.toFile(dir + "o", e.get(), e->getInputVariable(0), e->getInputVariable(0), 4, fl::FldExporter::AllVariables, e->outputVariables()); }); if (w.empty()) c.violation("file", "an R script to a file that cannot be written is not reported"); } }
    { fl::FldExporter f; std::istringstream in("1 2 3 4 5 6 7 8 9\nx y z\n"); std::ostringstream out; w = caught([&]() { f.write(e.get(), out, in); }); if (!w.empty()) report(c, "reader", "an invalid data line", w), c.count("invalid data"); else c.violation("reader", "the data line 'x y z' is not reported"); std::vector<double> v = vec(r, q); std::unique_ptr<fl::Engine> k(buildApi(q)); e->restart(); set(e.get(), v); set(k.get(), v); e->process(); k->process(); if (outputsStr(e.get()) != outputsStr(k.get())) c.violation("reader:after", "after invalid data the engine computes something else", specStr(q)); }
}
// 4: configurations and lookups that fail
static void lookups(Ctx& c, Rng& r) {
    EngineSpec q = smallSpec(r); c.note(specStr(q)); std::unique_ptr<fl::Engine> e(buildApi(q)); if (r.coin()) { set(e.get(), vec(r, q)); e->process(); } std::string before = describe(e.get()); fl::Engine* x = e.get(); fl::FactoryManager* m = fl::FactoryManager::instance();
    auto fails = [&](const char* what, const std::function<void()>& f) { bool t = false; std::string w = caught(f, &t); c.count("lookups that fail"); if (!t) c.violation(std::string("lookup:") + what, std::string(what) + " does not fail"); else report(c, "lookup", what, w); std::string after = describe(x); if (after != before) { c.violation(std::string("lookup:changes:") + what, std::string("failing ") + what + " changes the engine: " + diffText(before, after), specStr(q)); before = after; } };
    std::string no = pickS(r, {"nosuch", "", "I0", " a", "nosuch nosuch"}); size_t big = r.chance(0.5) ? 1000 : e->numberOfInputVariables() + e->numberOfOutputVariables() + 40;
    static const std::set<std::string> taken; for (auto v : x->variables()) if (v->getName() == no) no += "_nosuch"; for (auto b : x->ruleBlocks()) if (b->getName() == no) no += "_nosuch2"; for (auto v : x->variables()) for (auto t : v->terms()) if (t->getName() == no) no += "_nosuch3";
    fails("getInputVariable", [&]() { x->getInputVariable(no); }); fails("getOutputVariable", [&]() { x->getOutputVariable(no); }); fails("getRuleBlock", [&]() { x->getRuleBlock(no); }); fails("setInputValue", [&]() { x->setInputValue(no, 0.5); }); fails("getOutputValue", [&]() { x->getOutputValue(no); }); fails("removeInputVariable", [&]() { delete x->removeInputVariable(no); }); fails("removeOutputVariable", [&]() { delete x->removeOutputVariable(no); }); fails("removeRuleBlock", [&]() { delete x->removeRuleBlock(no); });
    fails("getInputVariable(index)", [&]() { x->getInputVariable(big); }); fails("getOutputVariable(index)", [&]() { x->getOutputVariable(big); }); fails("getRuleBlock(index)", [&]() { x->getRuleBlock(big); }); fails("removeInputVariable(index)", [&]() { delete x->removeInputVariable(big); }); fails("removeOutputVariable(index)", [&]() { delete x->removeOutputVariable(big); }); fails("removeRuleBlock(index)", [&]() { delete x->removeRuleBlock(big); });
    if (!x->variables().empty()) { fl::Variable* v = r.pick(x->variables()); fails("getTerm", [&]() { v->getTerm(no); }); fails("getTerm(index)", [&]() { v->getTerm(big); }); fails("removeTerm(index)", [&]() { delete v->removeTerm(big); }); }
    if (x->numberOfRuleBlocks()) { fl::RuleBlock* b = x->getRuleBlock(0); fails("getRule(index)", [&]() { b->getRule(big); }); fails("removeRule(index)", [&]() { delete b->removeRule(big); }); }
    fails("FactoryManager term", [&]() { delete m->term()->constructObject(no.empty() ? "nosuch" : no); }); fails("FactoryManager tnorm", [&]() { delete m->tnorm()->constructObject("nosuch"); }); fails("FactoryManager snorm", [&]() { delete m->snorm()->constructObject("nosuch"); }); fails("FactoryManager hedge", [&]() { delete m->hedge()->constructObject("nosuch"); }); fails("FactoryManager defuzzifier", [&]() { delete m->defuzzifier()->constructObject("nosuch"); }); fails("FactoryManager activation", [&]() { delete m->activation()->constructObject("nosuch"); }); fails("FactoryManager function", [&]() { delete m->function()->cloneObject("nosuch"); });
    std::vector<std::string> names = {r.coin() ? "Minimum" : "", "Maximum", "AlgebraicProduct", "Maximum", "Centroid", "General"}; int at = r.below(6); names[at] = "nosuch"; fails("Engine::configure", [&]() { x->configure(names[0], names[1], names[2], names[3], names[4], names[5]); });
    // a rule with a reference that cannot be resolved
    if (x->numberOfRuleBlocks()) { fl::RuleBlock* b = x->getRuleBlock(0); size_t n = b->numberOfRules(); std::string t = "if nosuch is nosuch then nosuch is nosuch"; fails("Rule::parse", [&]() { b->addRule(fl::Rule::parse(t, x)); }); if (b->numberOfRules() != n) c.violation("parse", "a rule that could not be parsed was added"); }
    fails("Op::toScalar", [&]() { fl::Op::toScalar("nosuch"); }); c.distinct(before);
}
// 5: constructors that fail while an engine is read
static fl::Term* boomT() { F->hit("a constructor"); return new fl::Triangle; } static fl::TNorm* boomN() { F->hit("a constructor"); return new fl::Minimum; } static fl::SNorm* boomS() { F->hit("a constructor"); return new fl::Maximum; } static fl::Hedge* boomH() { F->hit("a constructor"); return new fl::Very; } static fl::Defuzzifier* boomD() { F->hit("a constructor"); return new fl::Centroid; } static fl::Activation* boomA() { F->hit("a constructor"); return new fl::General; }
struct Conf : fl::Triangle { std::string className() const override { return "Triangle"; } void configure(const std::string& p) override { F->hit("a configuration"); fl::Triangle::configure(p); F->hit("a configuration"); } };
static fl::Term* boomC() { return new Conf; }
template <typename FA_, typename C> struct Swap { FA_* f; std::string k; C old; Swap(FA_* x, const std::string& n, C c) : f(x), k(n), old(x->getConstructor(n)) { f->registerConstructor(k, c); } ~Swap() { f->registerConstructor(k, old); } };
static void constructors(Ctx& c, Rng& r) {
    EngineSpec q = smallSpec(r); c.note(specStr(q)); Fault f; struct Guard { ~Guard() { F = nullptr; } } guard; F = &f; fl::FactoryManager* m = fl::FactoryManager::instance(); int fmt = r.below(3); std::unique_ptr<fl::Engine> e(buildApi(q)); std::string text; caught([&]() { text = fmt == 0 ? toFll(q) : fmt == 1 ? fl::FisExporter().toString(e.get()) : fl::FclExporter().toString(e.get()); }); if (text.empty()) return;
    auto import = [&]() { return fmt == 0 ? fl::FllImporter().fromString(text) : fmt == 1 ? fl::FisImporter().fromString(text) : fl::FclImporter().fromString(text); }; std::string want; if (!caught([&]() { std::unique_ptr<fl::Engine> x(import()); want = describe(x.get()); }).empty()) return;
    std::string cls = SHAPES[r.below(18)], tn = TNORMS[r.below(7)], sn = SNORMS[r.below(9)], hd = HEDGES[r.below(6)], df = pickS(r, {"Centroid", "Bisector", "WeightedAverage", "WeightedSum"}); if (r.coin() && !q.in.empty() && !q.in[0].terms.empty() && q.in[0].terms[0].cls != "Triangle") cls = q.in[0].terms[0].cls; bool conf = r.chance(0.3); if (conf) cls = "Triangle";
    { Swap<fl::TermFactory, fl::TermFactory::Constructor> s1(m->term(), cls, conf ? boomC : boomT); Swap<fl::TNormFactory, fl::TNormFactory::Constructor> s2(m->tnorm(), tn, boomN); Swap<fl::SNormFactory, fl::SNormFactory::Constructor> s3(m->snorm(), sn, boomS); Swap<fl::HedgeFactory, fl::HedgeFactory::Constructor> s4(m->hedge(), hd, boomH); Swap<fl::DefuzzifierFactory, fl::DefuzzifierFactory::Constructor> s5(m->defuzzifier(), df, boomD); Swap<fl::ActivationFactory, fl::ActivationFactory::Constructor> s6(m->activation(), "General", boomA);
        caught([&]() { delete import(); }); long uses = f.seen; if (!uses) return; 
        for (int k = 0; k < 4; ++k) { f.kind = r.below(4); f.left = (long) (r.unit() * uses); f.fired = false; f.armed = true; bool threw = false; std::string w = caught([&]() { std::unique_ptr<fl::Engine> x(import()); f.armed = false; describe(x.get()); x->process(); }, &threw); f.armed = false; if (f.fired) { c.count("constructors that failed during imports"); c.distinct(text + std::to_string(f.left)); if (!threw) c.count("imports completed without the rule"); else report(c, "constructor", "a failing constructor", w); } }
        if (r.coin()) { f.seen = 0; std::string d0 = describe(e.get()); f.kind = r.below(4); f.left = r.below(4); f.fired = false; f.armed = true; std::string w = caught([&]() { e->configure(tn, sn, tn, sn, df, "General"); }); f.armed = false; if (f.fired && w.empty()) c.violation("configure", "a failing constructor is not reported by Engine::configure"); if (f.fired && describe(e.get()) != d0) c.violation("configure:changes", "Engine::configure fails but changes the engine: " + diffText(d0, describe(e.get()))); } }
    std::string again; caught([&]() { std::unique_ptr<fl::Engine> x(import()); again = describe(x.get()); }); if (again != want) c.violation("constructor:after", "after failing imports the text is read differently: " + diffText(want, again), text);
}
static void run(Ctx& c, Rng& r, long idx) {
    switch (idx % 10) { case 0: case 1: case 2: injected(c, r); break; case 3: case 4: missing(c, r); break; case 5: case 6: rules(c, r); break; case 7: files(c, r); break; case 8: lookups(c, r); break; default: constructors(c, r); }
    c.count("cases");
}
Property vf::PROPERTY("P34", 9000, 400000, run, "Failures of seven kinds beside a control that never fails: parts that raise at their k-th use (norms, hedges, terms, defuzzifiers, activation methods) while processing, exporting datasets and benchmarking; missing operators and points; rules that cannot be loaded among good ones; failing imports, exports and files; failing lookups and configurations; constructors that raise while engines are read. Checked: an exception with a message, nothing leaked (allocation balance), and the same results as the control after the repair.",
    {{"injected failures", 2000}, {"missing parts reported", 300}, {"parts not needed", 200}, {"steps compared after a failure", 10000}, {"bad rules", 1500}, {"good rules beside bad ones", 1500}, {"failing imports", 300}, {"lookups that fail", 15000}, {"constructors that failed during imports", 1000}, {"benchmarks repeated after a failure", 200}});
