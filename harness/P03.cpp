#include "state.hpp"
using namespace vf;
// ---------------------------------------------------------------- world: engines and detached parts beside a model of sequences
static const char* NAMES[] = {"a", "b", "c", "d", "e", "a b", ""};
static const char* TNAMES[] = {"low", "high", "mid", "", "low low"};
struct EM { std::vector<fl::InputVariable*> in; std::vector<fl::OutputVariable*> out; std::vector<fl::RuleBlock*> bl; std::string name; };
struct World {
    Ctx& c; Rng& r; std::vector<fl::Engine*> E; std::vector<EM> M; std::map<const fl::Variable*, std::vector<fl::Term*> > T; std::map<const fl::RuleBlock*, std::vector<fl::Rule*> > R; std::map<const void*, std::string> N;
    std::vector<fl::InputVariable*> pi; std::vector<fl::OutputVariable*> po; std::vector<fl::RuleBlock*> pb; std::vector<fl::Term*> pt; std::vector<fl::Rule*> pr; std::string log; bool bad = false;
    World(Ctx& x, Rng& y) : c(x), r(y) {}
    ~World() { quiesce(); for (auto e : E) delete e; for (auto v : pi) delete v; for (auto v : po) delete v; for (auto v : pb) delete v; for (auto t : pt) delete t; for (auto q : pr) delete q; }
    void fail(const std::string& k, const std::string& m) { if (!bad) c.violation(k, m, log); bad = true; }
    std::string op;
    void did(const std::string& s) { op = s; log += s + "\n"; c.note(log.size() > 3000 ? log.substr(log.size() - 3000) : log); c.count("operations"); }
    // before anything is destroyed: nothing may refer to it any more
    void quiesce() { for (auto& p : R) for (auto q : p.second) q->unload(); for (auto q : pr) q->unload(); for (auto e : E) for (auto o : e->outputVariables()) o->fuzzyOutput()->clear(); for (auto o : po) o->fuzzyOutput()->clear(); }
    fl::Term* term() { std::string n = TNAMES[r.below(r.chance(0.85) ? 3 : 5)]; fl::Term* t; switch (r.below(8)) { case 0: t = new fl::Linear(n, {r.dec(-1, 1), 0.5}); break; case 1: t = new fl::Function(n, r.pick(std::vector<std::string>{"x+1", "a*2", "b-c", "1+"})); break; case 2: t = new fl::Constant(n, r.dec(-5, 5)); break; case 3: t = new fl::Discrete(n, {fl::Discrete::Pair(0, 0), fl::Discrete::Pair(1, 1)}); break; case 4: t = new fl::Ramp(n, 0, 1); break; default: { double a = r.dec(0, 0.8); t = new fl::Triangle(n, a, a + 0.1, a + 0.2); } } N[t] = n; return t; }
    std::string someName(bool out) { std::vector<fl::Variable*> v; if (!M.empty()) { EM& m = M[r.below((int) M.size())]; v.insert(v.end(), m.out.begin(), m.out.end()); if (!out) v.insert(v.end(), m.in.begin(), m.in.end()); } if (v.empty() || r.chance(0.1)) return std::string(NAMES[r.below(4)]) + " is " + TNAMES[r.below(3)]; fl::Variable* x = r.pick(v); return N[x] + " is " + (r.chance(0.2) ? "very " : "") + (T[x].empty() ? std::string("low") : N[r.pick(T[x])]); }
    fl::Rule* rule() { std::string t = "if " + someName(false) + (r.chance(0.3) ? " and " + someName(false) : "") + " then " + someName(true); fl::Rule* q = new fl::Rule(t); N[q] = t; return q; }
    void adopt(fl::Variable* v) { T[v] = v->terms(); N[v] = v->getName(); for (auto t : v->terms()) N[t] = t->getName(); }
    void adopt(fl::RuleBlock* b) { R[b] = b->rules(); N[b] = b->getName(); for (auto q : b->rules()) N[q] = q->getText(); }
    template <typename V> V* variable() { std::string n = NAMES[r.below(r.chance(0.85) ? 5 : 7)]; V* v; if (r.coin()) { v = new V(n, 0, 1); T[v]; } else { std::vector<fl::Term*> ts; for (int k = r.below(4); k-- > 0;) ts.push_back(term()); v = new V(n, 0, 1, ts); T[v] = ts; } N[v] = n; if (auto o = dynamic_cast<fl::OutputVariable*>((fl::Variable*) v)) { if (r.chance(0.8)) o->setDefuzzifier(r.coin() ? (fl::Defuzzifier*) new fl::Centroid(20) : new fl::WeightedAverage); if (r.chance(0.8)) o->setAggregation(new fl::Maximum); } return v; }
    fl::RuleBlock* block() { fl::RuleBlock* b; std::string n = NAMES[r.below(r.chance(0.85) ? 5 : 7)]; if (r.coin()) { b = new fl::RuleBlock(n); R[b]; } else { std::vector<fl::Rule*> q; for (int k = r.below(4); k-- > 0;) q.push_back(rule()); b = new fl::RuleBlock(n, q); R[b] = q; } N[b] = n; if (r.chance(0.9)) b->setConjunction(new fl::Minimum); if (r.chance(0.9)) b->setImplication(new fl::Minimum); if (r.chance(0.8)) b->setActivation(new fl::General); return b; }
    void dropTerm(fl::Term* t) { N.erase(t); delete t; }
    void destroy(fl::Variable* v) { for (auto t : T[v]) N.erase(t); T.erase(v); N.erase(v); delete v; }
    void destroy(fl::RuleBlock* b) { for (auto q : R[b]) N.erase(q); R.erase(b); N.erase(b); delete b; }
    void detach(fl::Variable* v) { for (auto t : v->terms()) t->updateReference(nullptr); }
    void attach(fl::Variable* v, fl::Engine* e) { for (auto t : v->terms()) t->updateReference(e); }
    // ------------------------------------------------ generic checks of a sequence
    template <typename P> void seq(const std::string& what, const std::vector<P*>& m, size_t n, const std::vector<P*>& list, const std::function<P*(size_t)>& get) {
        c.count("sequences compared"); if (n != m.size()) return fail("size:" + what, "the number of " + what + " is " + std::to_string(n) + " instead of " + std::to_string(m.size()) + " after " + op); if (list != m) return fail("order:" + what, "the " + what + " are not those that the operations imply after " + op);
        for (size_t i = 0; i < m.size(); ++i) if (get(i) != m[i]) return fail("index:" + what, "looking up " + what + " " + std::to_string(i) + " gives another object after " + op); }
    template <typename P> P* firstNamed(const std::vector<P*>& m, const std::string& n) { for (auto p : m) if (N[p] == n) return p; return nullptr; }
    template <typename P> void named(const std::string& what, const std::vector<P*>& m, const std::string& n, const std::function<P*()>& get, int has) {
        P* want = firstNamed(m, n); P* got = nullptr; bool threw = false; caught([&]() { got = get(); }, &threw); c.count("lookups by name"); if (want && (threw || got != want)) fail("name:" + what, "looking up " + what + " '" + n + "' " + (threw ? "fails" : "gives another object") + " after " + op); if (!want && !threw) fail("name:" + what, "looking up " + what + " '" + n + "', which does not exist, does not fail after " + op); if (has >= 0 && (has == 1) != (want != nullptr)) fail("has:" + what, "whether " + what + " '" + n + "' exists is " + (has ? "yes" : "no") + " after " + op); }
    void checkVar(const fl::Variable* v) { const std::vector<fl::Term*>& m = T[v]; seq<fl::Term>("terms", m, v->numberOfTerms(), v->terms(), [&](size_t i) { return v->getTerm(i); }); for (auto t : m) if (t->getName() != N[t]) fail("term", "a term has another name after " + op); if (v->getName() != N[v]) fail("varname", "a variable is called '" + v->getName() + "' instead of '" + N[v] + "' after " + op); for (int k = 0; k < 5; ++k) { if (!r.chance(0.2)) continue; std::string n = TNAMES[k]; named<fl::Term>("term", m, n, [&]() { return v->getTerm(n); }, v->hasTerm(n)); }
        if (auto o = dynamic_cast<const fl::OutputVariable*>(v)) { if (o->fuzzyOutput()->getName() != o->getName() || !same(o->fuzzyOutput()->getMinimum(), o->getMinimum()) || !same(o->fuzzyOutput()->getMaximum(), o->getMaximum())) fail("fuzzyOutput", "the fuzzy output does not have the name and range of its variable after " + op); } }
    void checkBlock(const fl::RuleBlock* b) { seq<fl::Rule>("rules", R[b], b->numberOfRules(), b->rules(), [&](size_t i) { return b->getRule(i); }); for (auto q : R[b]) if (q->getText() != N[q]) fail("rule", "a rule has text '" + q->getText() + "' instead of '" + N[q] + "' after " + op); if (b->getName() != N[b]) fail("blockname", "a block has another name after " + op); }
    void check(size_t k) { fl::Engine* e = E[k]; const fl::Engine* ce = e; EM& m = M[k]; if (e->getName() != m.name) fail("enginename", "the engine has another name after " + op);
        seq<fl::InputVariable>("input variables", m.in, e->numberOfInputVariables(), ce->inputVariables(), [&](size_t i) { return e->getInputVariable(i); }); seq<fl::OutputVariable>("output variables", m.out, e->numberOfOutputVariables(), ce->outputVariables(), [&](size_t i) { return e->getOutputVariable(i); }); seq<fl::RuleBlock>("rule blocks", m.bl, e->numberOfRuleBlocks(), ce->ruleBlocks(), [&](size_t i) { return e->getRuleBlock(i); }); if (bad) return;
        std::vector<fl::Variable*> all(m.in.begin(), m.in.end()); all.insert(all.end(), m.out.begin(), m.out.end()); if (e->variables() != all) fail("variables", "the variables of the engine are not its inputs followed by its outputs after " + op);
        for (int i = 0; i < 7; ++i) { if (!r.chance(0.3)) continue; std::string n = NAMES[i]; named<fl::InputVariable>("input variable", m.in, n, [&]() { return e->getInputVariable(n); }, e->hasInputVariable(n)); named<fl::OutputVariable>("output variable", m.out, n, [&]() { return e->getOutputVariable(n); }, e->hasOutputVariable(n)); named<fl::RuleBlock>("rule block", m.bl, n, [&]() { return e->getRuleBlock(n); }, e->hasRuleBlock(n)); }
        for (auto v : m.in) checkVar(v); for (auto v : m.out) checkVar(v); for (auto b : m.bl) checkBlock(b); }
    void checkAll() { for (size_t k = 0; k < E.size() && !bad; ++k) check(k); for (auto v : pi) checkVar(v); for (auto v : po) checkVar(v); for (auto b : pb) checkBlock(b); }
    // ------------------------------------------------ operations on a sequence of an engine
    template <typename P> struct Api { std::string what; std::function<void(P*)> add; std::function<void(P*, size_t)> insert; std::function<P*(P*, size_t)> set; std::function<P*(size_t)> removeAt; std::function<P*(const std::string&)> removeNamed; std::function<void(const std::vector<P*>&)> setAll; std::function<std::vector<P*>&()> direct; std::function<P*()> make; std::function<void(P*)> attach, detach; };
    template <typename P> void sequenceOp(Api<P>& a, std::vector<P*>& m, std::vector<P*>& pool) {
        auto obtain = [&]() { if (!pool.empty() && r.chance(0.4)) { int i = r.below((int) pool.size()); P* p = pool[i]; pool.erase(pool.begin() + i); return p; } return a.make(); };
        switch (r.below(9)) {
            case 0: case 1: { if (m.size() > 7) return; P* p = obtain(); did("add " + a.what + " '" + N[p] + "'"); a.add(p); a.attach(p); m.push_back(p); break; }
            case 2: { if (!a.insert || m.size() > 7) return; P* p = obtain(); size_t i = r.below((int) m.size() + 1); did("insert " + a.what + " '" + N[p] + "' at " + std::to_string(i)); a.insert(p, i); a.attach(p); m.insert(m.begin() + i, p); break; }
            case 3: { if (!a.set || m.empty()) return; P* p = obtain(); size_t i = r.below((int) m.size()); did("set " + a.what + " " + std::to_string(i) + " to '" + N[p] + "'"); P* old = a.set(p, i); if (old != m[i]) fail("set:" + a.what, "replacing " + a.what + " " + std::to_string(i) + " returns another object"); m[i] = p; a.attach(p); a.detach(old); pool.push_back(old); break; }
            case 4: { if (m.empty()) return; size_t i = r.below((int) m.size()); did("remove " + a.what + " " + std::to_string(i)); P* old = a.removeAt(i); if (old != m[i]) fail("remove:" + a.what, "removing " + a.what + " " + std::to_string(i) + " returns another object"); pool.push_back(m[i]); a.detach(m[i]); m.erase(m.begin() + i); break; }
            case 5: { if (!a.removeNamed) return; std::string n = NAMES[r.below(r.chance(0.85) ? 5 : 7)]; did("remove " + a.what + " named '" + n + "'"); P* want = firstNamed(m, n); P* got = nullptr; bool threw = false; caught([&]() { got = a.removeNamed(n); }, &threw); if (want ? threw || got != want : !threw) fail("removename:" + a.what, "removing " + a.what + " '" + n + "' " + (threw ? "fails" : "gives another object")); if (want) { for (size_t i = 0; i < m.size(); ++i) if (m[i] == want) { m.erase(m.begin() + i); break; } a.detach(want); pool.push_back(want); } break; }
            case 6: { std::vector<P*> nw; for (auto p : m) if (r.chance(0.7)) nw.push_back(p); r.shuffle(nw); if (r.coin()) nw.push_back(obtain()); did("set all " + a.what + "s"); a.setAll(nw); for (auto p : m) { bool k = false; for (auto q : nw) k = k || p == q; if (!k) { a.detach(p); pool.push_back(p); } } m = nw; for (auto p : m) a.attach(p); break; }
            case 7: { if (m.size() < 2) return; did("swap the first two " + a.what + "s"); std::vector<P*>& d = a.direct(); std::swap(d[0], d[1]); std::swap(m[0], m[1]); break; }
            default: { size_t big = m.size() + r.below(3) + (r.coin() ? 0 : 1000000); did("remove or set " + a.what + " " + std::to_string(big)); bool t = false; if (a.set && r.coin()) { P* p = a.make(); caught([&]() { a.set(p, big); }, &t); pool.push_back(p); } else caught([&]() { a.removeAt(big); }, &t); if (!t) fail("range:" + a.what, "removing or replacing " + a.what + " " + std::to_string(big) + " of " + std::to_string(m.size()) + " does not fail"); c.count("operations out of range"); }
        }
    }
    void inputOp(size_t k) { fl::Engine* e = E[k]; Api<fl::InputVariable> a; a.what = "input variable"; a.add = [=](fl::InputVariable* p) { e->addInputVariable(p); }; a.insert = [=](fl::InputVariable* p, size_t i) { e->insertInputVariable(p, i); }; a.set = [=](fl::InputVariable* p, size_t i) { return e->setInputVariable(p, i); }; a.removeAt = [=](size_t i) { return e->removeInputVariable(i); }; a.removeNamed = [=](const std::string& n) { return e->removeInputVariable(n); }; a.setAll = [=](const std::vector<fl::InputVariable*>& v) { e->setInputVariables(v); }; a.direct = [=]() -> std::vector<fl::InputVariable*>& { return e->inputVariables(); }; a.make = [=]() { return variable<fl::InputVariable>(); }; a.attach = [=](fl::InputVariable* v) { attach(v, e); }; a.detach = [=](fl::InputVariable* v) { detach(v); }; sequenceOp(a, M[k].in, pi); }
    void outputOp(size_t k) { fl::Engine* e = E[k]; Api<fl::OutputVariable> a; a.what = "output variable"; a.add = [=](fl::OutputVariable* p) { e->addOutputVariable(p); }; a.insert = [=](fl::OutputVariable* p, size_t i) { e->insertOutputVariable(p, i); }; a.set = [=](fl::OutputVariable* p, size_t i) { return e->setOutputVariable(p, i); }; a.removeAt = [=](size_t i) { return e->removeOutputVariable(i); }; a.removeNamed = [=](const std::string& n) { return e->removeOutputVariable(n); }; a.setAll = [=](const std::vector<fl::OutputVariable*>& v) { e->setOutputVariables(v); }; a.direct = [=]() -> std::vector<fl::OutputVariable*>& { return e->outputVariables(); }; a.make = [=]() { return variable<fl::OutputVariable>(); }; a.attach = [=](fl::OutputVariable* v) { attach(v, e); }; a.detach = [=](fl::OutputVariable* v) { detach(v); }; sequenceOp(a, M[k].out, po); }
    void blockOp(size_t k) { fl::Engine* e = E[k]; Api<fl::RuleBlock> a; a.what = "rule block"; a.add = [=](fl::RuleBlock* p) { e->addRuleBlock(p); }; a.insert = [=](fl::RuleBlock* p, size_t i) { e->insertRuleBlock(p, i); }; a.set = [=](fl::RuleBlock* p, size_t i) { return e->setRuleBlock(p, i); }; a.removeAt = [=](size_t i) { return e->removeRuleBlock(i); }; a.removeNamed = [=](const std::string& n) { return e->removeRuleBlock(n); }; a.setAll = [=](const std::vector<fl::RuleBlock*>& v) { e->setRuleBlocks(v); }; a.direct = [=]() -> std::vector<fl::RuleBlock*>& { return e->ruleBlocks(); }; a.make = [=]() { return block(); }; a.attach = [=](fl::RuleBlock*) {}; a.detach = [=](fl::RuleBlock*) {}; sequenceOp(a, M[k].bl, pb); }
    fl::Variable* anyVar() { std::vector<fl::Variable*> v(pi.begin(), pi.end()); v.insert(v.end(), po.begin(), po.end()); for (auto& m : M) { v.insert(v.end(), m.in.begin(), m.in.end()); v.insert(v.end(), m.out.begin(), m.out.end()); } return v.empty() ? nullptr : r.pick(v); }
    fl::RuleBlock* anyBlock() { std::vector<fl::RuleBlock*> v = pb; for (auto& m : M) v.insert(v.end(), m.bl.begin(), m.bl.end()); return v.empty() ? nullptr : r.pick(v); }
    fl::Engine* ownerOf(const fl::Variable* v) { for (size_t k = 0; k < E.size(); ++k) { for (auto p : M[k].in) if (p == v) return E[k]; for (auto p : M[k].out) if (p == v) return E[k]; } return nullptr; }
    void termOp() { fl::Variable* v = anyVar(); if (!v) return; fl::Engine* e = ownerOf(v); Api<fl::Term> a; a.what = "term"; a.add = [=](fl::Term* p) { v->addTerm(p); }; a.insert = [=](fl::Term* p, size_t i) { v->insertTerm(p, i); }; a.removeAt = [=](size_t i) { return v->removeTerm(i); }; a.setAll = [=](const std::vector<fl::Term*>& t) { v->setTerms(t); }; a.direct = [=]() -> std::vector<fl::Term*>& { return v->terms(); }; a.make = [=]() { return term(); }; a.attach = [=](fl::Term* t) { t->updateReference(e); }; a.detach = [=](fl::Term* t) { t->updateReference(nullptr); };
        if (r.chance(0.15)) { did("sort the terms"); std::multiset<fl::Term*> x(T[v].begin(), T[v].end()), y; v->sort(); y.insert(v->terms().begin(), v->terms().end()); if (x != y) fail("sort", "sorting loses or duplicates terms"); T[v] = v->terms(); double last = -Inf; for (auto t : v->terms()) { double k = NaN; if (auto q = dynamic_cast<fl::Constant*>(t)) k = q->getValue(); else if (auto q = dynamic_cast<fl::Triangle*>(t)) { if (v->getMinimum() == 0 && v->getMaximum() == 1) k = q->getVertexB(); } if (k == k) { if (k < last - 0.02) { std::string z; for (auto q : v->terms()) z += q->toString() + "; "; fail("sort:order", "sorted terms are not ordered by their centers: " + z); }; last = std::max(last, k); } } c.count("sorts"); return; }
        sequenceOp(a, T[v], pt); }
    void ruleOp() { fl::RuleBlock* b = anyBlock(); if (!b) return; Api<fl::Rule> a; a.what = "rule"; a.add = [=](fl::Rule* p) { if (r.coin()) b->rule(p); else b->addRule(p); }; a.insert = [=](fl::Rule* p, size_t i) { b->insertRule(p, i); }; a.removeAt = [=](size_t i) { return b->removeRule(i); }; a.setAll = [=](const std::vector<fl::Rule*>& t) { b->setRules(t); }; a.direct = [=]() -> std::vector<fl::Rule*>& { return b->rules(); }; a.make = [=]() { return rule(); }; a.attach = [](fl::Rule*) {}; a.detach = [](fl::Rule*) {}; sequenceOp(a, R[b], pr); }
    void rename() { std::string n = NAMES[r.below(r.chance(0.85) ? 5 : 7)]; switch (r.below(5)) { case 0: case 1: if (fl::Variable* v = anyVar()) { did("rename variable '" + N[v] + "' to '" + n + "'"); v->setName(n); N[v] = n; if (r.coin()) v->setRange(0, r.range(1, 3)); } break; case 2: if (fl::RuleBlock* b = anyBlock()) { did("rename block"); b->setName(n); N[b] = n; } break; case 3: if (fl::Variable* v = anyVar()) if (!T[v].empty()) { fl::Term* t = r.pick(T[v]); n = TNAMES[r.below(r.chance(0.85) ? 3 : 5)]; did("rename term"); t->setName(n); N[t] = n; } break; default: if (!E.empty()) { int k = r.below((int) E.size()); did("rename engine"); E[k]->setName(n); M[k].name = n; } } }
    bool fresh(fl::Engine* e, const std::set<const void*>& before) { for (auto p : owned(e, false)) if (before.count(p)) return false; return true; }
    EM snapshot(fl::Engine* e) { EM m; m.in = e->inputVariables(); m.out = e->outputVariables(); m.bl = e->ruleBlocks(); m.name = e->getName(); for (auto v : m.in) adopt(v); for (auto v : m.out) adopt(v); for (auto b : m.bl) adopt(b); return m; }
    std::set<const void*> everything() { std::set<const void*> s; for (auto e : E) { auto o = owned(e, false); s.insert(o.begin(), o.end()); } return s; }
    template <typename V> void cmpNames(const std::string& what, const V& x, const V& y, const char* w) { if (x.size() != y.size()) return fail("copy:size", what + " has another number of " + w); for (size_t i = 0; i < x.size(); ++i) if (N[x[i]] != N[y[i]]) fail("copy:name", what + " has " + w + " in another order"); }
    void sameNames(const EM& a, const EM& b, const std::string& what) { cmpNames(what, a.in, b.in, "inputs"); cmpNames(what, a.out, b.out, "outputs"); cmpNames(what, a.bl, b.bl, "blocks"); if (bad) return; auto vars = [&](const fl::Variable* x, const fl::Variable* y) { if (T[x].size() != T[y].size()) return fail("copy:terms", what + " has another number of terms"); for (size_t i = 0; i < T[x].size(); ++i) if (N[T[x][i]] != N[T[y][i]] || T[x][i]->className() != T[y][i]->className()) fail("copy:terms", what + " has other terms"); }; for (size_t i = 0; i < a.in.size(); ++i) vars(a.in[i], b.in[i]); for (size_t i = 0; i < a.out.size(); ++i) vars(a.out[i], b.out[i]); for (size_t i = 0; i < a.bl.size(); ++i) { auto &x = R[a.bl[i]], &y = R[b.bl[i]]; if (x.size() != y.size()) return fail("copy:rules", what + " has another number of rules"); for (size_t k = 0; k < x.size(); ++k) if (N[x[k]] != N[y[k]]) fail("copy:rules", what + " has other rules"); } }
    void engines() {
        static const int W[] = {0, 1, 2, 3, 4, 4, 4, 5, 5, 6, 7, 8}; int w = W[r.below(12)]; int k = E.empty() ? -1 : r.below((int) E.size());
        if (k < 0 || (w == 0 && E.size() < 3)) { std::string n = NAMES[r.below(r.chance(0.85) ? 5 : 7)]; did("new engine '" + n + "'"); if (r.coin()) { E.push_back(new fl::Engine(n)); EM m; m.name = n; M.push_back(m); } else { std::vector<fl::InputVariable*> i; std::vector<fl::OutputVariable*> o; for (int q = r.below(3); q-- > 0;) i.push_back(variable<fl::InputVariable>()); for (int q = r.below(3); q-- > 0;) o.push_back(variable<fl::OutputVariable>()); std::vector<fl::RuleBlock*> b; if (r.coin()) { fl::RuleBlock* x = new fl::RuleBlock("b"); N[x] = "b"; R[x]; b.push_back(x); } E.push_back(new fl::Engine(n, "", i, o, b, r.coin())); EM m; m.name = n; m.in = i; m.out = o; m.bl = b; M.push_back(m); } return; }
        switch (w) {
            case 0: case 1: { if (E.size() >= 3) { did("delete an engine"); quiesce(); for (auto v : M[k].in) { for (auto t : T[v]) N.erase(t); T.erase(v); N.erase(v); } for (auto v : M[k].out) { for (auto t : T[v]) N.erase(t); T.erase(v); N.erase(v); } for (auto b : M[k].bl) { for (auto q : R[b]) N.erase(q); R.erase(b); N.erase(b); } delete E[k]; E.erase(E.begin() + k); M.erase(M.begin() + k); return; } did("copy an engine"); auto before = everything(); fl::Engine* n = r.coin() ? E[k]->clone() : new fl::Engine(*E[k]); EM m = snapshot(n); if (!fresh(n, before)) fail("copy:shared", "a copy of an engine shares objects with another engine"); sameNames(M[k], m, "a copy of an engine"); E.push_back(n); M.push_back(m); c.count("engine copies"); break; }
            case 2: { int j = r.below((int) E.size()); did("assign engine " + std::to_string(j) + " to " + std::to_string(k)); quiesce(); if (j == k) { fl::Engine& x = *E[k]; *E[k] = x; c.count("self assignments"); return; } for (auto v : M[k].in) { for (auto t : T[v]) N.erase(t); T.erase(v); N.erase(v); } for (auto v : M[k].out) { for (auto t : T[v]) N.erase(t); T.erase(v); N.erase(v); } for (auto b : M[k].bl) { for (auto q : R[b]) N.erase(q); R.erase(b); N.erase(b); } *E[k] = *E[j]; M[k] = snapshot(E[k]); sameNames(M[j], M[k], "an assigned engine"); c.count("engine assignments"); break; }
            case 3: { int j = r.below((int) E.size()); did("move engine " + std::to_string(j) + " to " + std::to_string(k)); quiesce(); if (j == k) { fl::Engine& x = *E[k]; *E[k] = std::move(x); return; } EM m = M[j]; *E[k] = std::move(*E[j]); M[k] = m; for (auto v : M[k].in) attach(v, E[k]); for (auto v : M[k].out) attach(v, E[k]); { fl::Engine* gone = E[j]; E.erase(E.begin() + j); M.erase(M.begin() + j); std::set<const void*> live; for (auto& z : M) { for (auto v : z.in) live.insert(v); for (auto v : z.out) live.insert(v); for (auto b : z.bl) live.insert(b); } for (auto v : pi) live.insert(v); for (auto v : po) live.insert(v); for (auto b : pb) live.insert(b); for (auto it = T.begin(); it != T.end();) if (!live.count(it->first)) { for (auto t : it->second) N.erase(t); N.erase(it->first); it = T.erase(it); } else ++it; for (auto it = R.begin(); it != R.end();) if (!live.count(it->first)) { for (auto t : it->second) N.erase(t); N.erase(it->first); it = R.erase(it); } else ++it; delete gone; } c.count("engine moves"); break; }
            case 4: { did("load rules"); for (auto b : M[k].bl) { caught([&]() { if (r.coin()) b->loadRules(E[k]); else b->reloadRules(E[k]); }); for (auto q : b->rules()) if (q->isLoaded()) c.count("rules loaded"); } break; }
            case 5: { did("process"); for (auto v : M[k].in) v->setValue(r.unit()); std::string w2 = caught([&]() { E[k]->process(); }); c.count(w2.empty() ? "engines processed" : "processing failed"); break; }
            case 6: { did("describe"); std::string s; caught([&]() { s = E[k]->toString(); }); caught([&]() { E[k]->isReady(&s); E[k]->type(); }); caught([&]() { fl::CppExporter().toString(E[k]); fl::FclExporter().toString(E[k]); }); break; }
            case 7: { did("restart or configure"); if (r.coin()) E[k]->restart(); else { quiesce(); caught([&]() { E[k]->configure("Minimum", "Maximum", "Minimum", "Maximum", "Centroid", r.coin() ? "General" : "First"); }); } break; }
            default: { did("replace operators"); quiesce(); for (auto o : M[k].out) { o->setDefuzzifier(r.coin() ? nullptr : new fl::Centroid(10)); o->setAggregation(r.chance(0.3) ? nullptr : (fl::SNorm*) new fl::Maximum); } for (auto b : M[k].bl) { b->setConjunction(new fl::AlgebraicProduct); b->setDisjunction(r.coin() ? nullptr : (fl::SNorm*) new fl::Maximum); b->setImplication(new fl::Minimum); b->setActivation(r.coin() ? nullptr : (fl::Activation*) new fl::Highest(2)); } }
        }
    }
    // a connected engine: variables with terms and rules about them
    void grow() { if (E.empty()) return; int k = r.below((int) E.size()); EM& m = M[k]; did("grow"); for (int i = r.range(1, 2); i-- > 0;) { fl::InputVariable* v = variable<fl::InputVariable>(); for (int t = r.range(1, 2); t-- > 0;) { fl::Term* q = term(); v->addTerm(q); T[v].push_back(q); } E[k]->addInputVariable(v); m.in.push_back(v); attach(v, E[k]); } { fl::OutputVariable* v = variable<fl::OutputVariable>(); for (int t = r.range(1, 2); t-- > 0;) { fl::Term* q = term(); v->addTerm(q); T[v].push_back(q); } E[k]->addOutputVariable(v); m.out.push_back(v); attach(v, E[k]); } fl::RuleBlock* b = block(); for (int i = r.range(1, 3); i-- > 0;) { fl::Rule* q = rule(); b->addRule(q); R[b].push_back(q); } E[k]->addRuleBlock(b); m.bl.push_back(b); caught([&]() { b->loadRules(E[k]); }); for (auto q : b->rules()) if (q->isLoaded()) c.count("rules loaded"); }
    void pools() {
        switch (r.below(7)) {
            case 0: did("delete detached parts"); quiesce(); if (!pi.empty()) { destroy(pi.back()); pi.pop_back(); } if (!pb.empty()) { destroy(pb.back()); pb.pop_back(); } if (!pt.empty()) { dropTerm(pt.back()); pt.pop_back(); } if (!po.empty()) { destroy(po.back()); po.pop_back(); } if (!pr.empty()) { N.erase(pr.back()); delete pr.back(); pr.pop_back(); } break;
            case 1: if (fl::Variable* v = anyVar()) { did("copy variable '" + N[v] + "'"); if (auto i = dynamic_cast<fl::InputVariable*>(v)) { fl::InputVariable* n = r.coin() ? i->clone() : new fl::InputVariable(*i); adopt(n); detach(n); pi.push_back(n); } else { auto o = static_cast<fl::OutputVariable*>(v); fl::OutputVariable* n = r.coin() ? o->clone() : new fl::OutputVariable(*o); adopt(n); detach(n); n->fuzzyOutput()->clear(); po.push_back(n); } c.count("variable copies"); } break;
            case 2: if (fl::RuleBlock* b = anyBlock()) { did("copy block"); fl::RuleBlock* n = r.coin() ? b->clone() : new fl::RuleBlock(*b); adopt(n); pb.push_back(n); c.count("block copies"); } break;
            case 3: if (pi.size() > 1 || po.size() > 1) { quiesce(); if (pi.size() > 1) { did("assign variable"); fl::InputVariable *a = pi[0], *b = pi[r.below((int) pi.size())]; for (auto t : T[a]) if (a != b) N.erase(t); size_t n = T[b].size(); *a = *b; adopt(a); if (T[a].size() != n) fail("assign:terms", "an assigned variable has another number of terms"); if (a != b) for (auto t : T[a]) for (auto u : T[b]) if (t == u) fail("assign:shared", "an assigned variable shares its terms"); } if (po.size() > 1) { did("assign output variable"); fl::OutputVariable *a = po[0], *b = po[r.below((int) po.size())]; for (auto t : T[a]) if (a != b) N.erase(t); size_t n = T[b].size(); *a = *b; adopt(a); if (T[a].size() != n) fail("assign:terms", "an assigned output variable has another number of terms"); } c.count("variable assignments"); } break;
            case 4: if (pb.size() > 1) { did("assign block"); quiesce(); fl::RuleBlock *a = pb[0], *b = pb[r.below((int) pb.size())]; if (a != b) for (auto q : R[a]) N.erase(q); size_t n = R[b].size(); *a = *b; adopt(a); if (R[a].size() != n) fail("assign:rules", "an assigned block has another number of rules"); c.count("block assignments"); } break;
            case 5: if (fl::RuleBlock* b = anyBlock()) if (!R[b].empty()) { did("copy or assign a rule"); fl::Rule* q = r.pick(R[b]); if (r.coin()) { fl::Rule* n = q->clone(); N[n] = n->getText(); if (N[n] != N[q]) fail("rule:copy", "a copied rule has another text"); pr.push_back(n); } else if (!pr.empty()) { *pr[0] = *q; N[pr[0]] = N[q]; } } break;
            default: if (fl::RuleBlock* b = anyBlock()) if (!R[b].empty()) { did("change or load a rule"); fl::Rule* q = r.pick(R[b]); switch (r.below(5)) { case 0: q->unload(); break; case 1: if (!E.empty()) { caught([&]() { q->load(E[0]); }); } break; case 2: { q->unload(); std::string t = std::string("if a is low then b is high"); q->setText(t); N[q] = t; break; } case 3: q->setAntecedent(new fl::Antecedent); break; default: q->setConsequent(new fl::Consequent); } }
        }
    }
};
static void world(Ctx& c, Rng& r) {
    World w(c, r); int steps = r.range(15, 60);
    for (int s = 0; s < steps && !w.bad; ++s) { if (s == 8) w.grow();
        int k = w.E.empty() ? -1 : r.below((int) w.E.size()); switch (k < 0 ? 99 : r.below(12)) { case 0: case 1: w.inputOp(k); break; case 2: case 3: w.outputOp(k); break; case 4: w.blockOp(k); break; case 5: case 6: w.termOp(); w.termOp(); break; case 7: for (int q = 0; q < 3; ++q) w.ruleOp(); break; case 8: w.rename(); break; case 9: w.pools(); break; default: w.engines(); }
        w.checkAll();
    }
    c.count("histories"); c.distinct(w.log); if (c.wantSample()) c.sample(w.log);
}
// ---------------------------------------------------------------- fuzzy sets
static void sets(Ctx& c, Rng& r) {
    std::vector<std::unique_ptr<fl::Term> > ts; for (int i = 0; i < 4; ++i) ts.emplace_back(new fl::Triangle(std::string(1, (char) ('a' + i)), 0, 0.5, 1)); fl::Minimum mn; fl::AlgebraicProduct ap; struct A { const fl::Term* t; double d; const fl::TNorm* i; };
    struct S { std::unique_ptr<fl::Aggregated> a; std::vector<A> m; double lo, hi; bool agg; }; std::vector<S> v(2); for (auto& s : v) { s.a.reset(new fl::Aggregated("n", 0, 1)); s.lo = 0; s.hi = 1; s.agg = false; } std::string log;
    int steps = r.range(10, 50);
    for (int k = 0; k < steps; ++k) {
        int n = r.below(2); S& s = v[n]; S& o = v[1 - n]; const fl::Term* t = ts[r.below(4)].get(); double d = r.pick(std::vector<double>{0, 0.25, 0.5, 1, 1.5, -0.5, NaN, r.unit()}); const fl::TNorm* im = r.below(3) == 0 ? nullptr : r.coin() ? (const fl::TNorm*) &mn : &ap; std::string w;
        switch (r.below(12)) {
            case 0: case 1: w = "add"; s.a->addTerm(t, d, im); s.m.push_back(A{t, d, im}); break;
            case 2: w = "add activated"; s.a->addTerm(fl::Activated(t, d, im)); s.m.push_back(A{t, d, im}); break;
            case 3: w = "term()"; s.a->term(t, d, im); s.m.push_back(A{t, d, im}); break;
            case 4: if (s.m.empty()) { bool th = false; caught([&]() { s.a->removeTerm(0); }, &th); if (!th) c.violation("set:empty", "removing from an empty fuzzy set does not fail"); } else { int i = r.below((int) s.m.size()); w = "remove " + std::to_string(i); fl::Activated x = s.a->removeTerm(i); if (x.getTerm() != s.m[i].t || !same(x.getDegree(), s.m[i].d) || x.getImplication() != s.m[i].i) c.violation("set:remove", "removing activation " + std::to_string(i) + " of " + std::to_string(s.m.size()) + " returns another one", log); s.m.erase(s.m.begin() + i); } break;
            case 5: { w = "set terms"; std::vector<fl::Activated> x; std::vector<A> m; for (int q = r.below(4); q-- > 0;) { const fl::Term* u = ts[r.below(4)].get(); x.push_back(fl::Activated(u, d, im)); m.push_back(A{u, d, im}); } if (r.coin()) { s.a->setTerms(x); s.m = m; } else { s.a->terms(x); s.m.insert(s.m.end(), m.begin(), m.end()); } break; }
            case 6: w = "clear"; s.a->clear(); s.m.clear(); break;
            case 7: w = "copy"; s.a.reset(r.coin() ? o.a->clone() : new fl::Aggregated(*o.a)); s.m = o.m; s.lo = o.lo; s.hi = o.hi; s.agg = o.agg; break;
            case 8: w = "assign"; *s.a = *o.a; s.m = o.m; s.lo = o.lo; s.hi = o.hi; s.agg = o.agg; break;
            case 9: w = "move"; *s.a = std::move(*o.a); s.m = o.m; s.lo = o.lo; s.hi = o.hi; s.agg = o.agg; o.a.reset(new fl::Aggregated("n", 0, 1)); o.m.clear(); o.lo = 0; o.hi = 1; o.agg = false; break;
            case 10: w = "range"; s.lo = r.dec(-2, 0); s.hi = r.dec(1, 2); if (r.coin()) s.a->setRange(s.lo, s.hi); else s.a->range(s.lo, s.hi); break;
            default: w = "aggregation"; s.agg = r.coin(); if (r.coin()) s.a->setAggregation(s.agg ? new fl::Maximum : nullptr); else s.a->aggregation(s.agg ? new fl::Maximum : nullptr);
        }
        log += w + "; "; c.count("operations on fuzzy sets");
        for (auto& q : v) {
            if (q.a->numberOfTerms() != q.m.size() || q.a->terms().size() != q.m.size() || q.a->isEmpty() != q.m.empty()) { c.violation("set:size", "the number of activations is " + std::to_string(q.a->numberOfTerms()) + " instead of " + std::to_string(q.m.size()) + " after " + w, log); return; }
            for (size_t i = 0; i < q.m.size(); ++i) { const fl::Activated& x = q.a->getTerm(i); if (x.getTerm() != q.m[i].t || !same(x.getDegree(), q.m[i].d) || x.getImplication() != q.m[i].i) { c.violation("set:order", "activation " + std::to_string(i) + " is another one after " + w, log); return; } }
            if (q.a->getMinimum() != q.lo || q.a->getMaximum() != q.hi || (q.a->getAggregation() != nullptr) != q.agg) { c.violation("set:settings", "range or aggregation of the fuzzy set differ after " + w, log); return; }
            bool th = false; caught([&]() { q.a->getTerm(q.m.size()); }, &th); if (!th) c.violation("set:range", "looking up an activation beyond the last does not fail"); caught([&]() { q.a->removeTerm(q.m.size() + r.below(3)); }, &th); if (!th) c.violation("set:range", "removing an activation beyond the last does not fail");
            // queries change nothing and have the members they should
            fl::Activated h = q.a->highestActivatedTerm(); double best = 0; const A* b = nullptr; for (auto& x : q.m) if (x.d > best) best = x.d, b = &x; if (h.getTerm() != (b ? b->t : nullptr) || (b && h.getDegree() != b->d)) c.violation("set:highest", "the highest activated term is another one after " + w, log); h.toString(); h.parameters(); h.fuzzyValue();
            std::vector<fl::Activated> mx = q.a->maximallyActivatedTerms(); size_t nm = 0; for (auto& x : q.m) if (b && x.d == best) { if (nm >= mx.size() || mx[nm].getTerm() != x.t) { c.violation("set:maximal", "the maximally activated terms are others after " + w, log); break; } ++nm; } if (nm != mx.size()) c.violation("set:maximal", "the number of maximally activated terms is " + std::to_string(mx.size()), log);
            std::vector<const fl::Term*> order; for (auto& x : q.m) { bool k2 = false; for (auto u : order) k2 = k2 || u == x.t; if (!k2) order.push_back(x.t); } std::vector<fl::Activated> g = q.a->groupedTerms(); if (g.size() != order.size()) c.violation("set:grouped", "grouping gives " + std::to_string(g.size()) + " groups instead of " + std::to_string(order.size()), log); else for (size_t i = 0; i < g.size(); ++i) { if (g[i].getTerm() != order[i]) c.violation("set:grouped", "the groups are in another order", log); else if (!same(g[i].getDegree(), [&]() { double y = 0; bool f1 = true; for (auto& x : q.m) if (x.t == order[i]) { if (f1) y = x.d; else y = q.agg ? fl::Op::max(y, x.d) : y + x.d; f1 = false; } return y; }())) c.violation("set:groupeddegree", "the degree of a group is " + num(g[i].getDegree()), log); }
            q.a->toString(); q.a->fuzzyValue(); q.a->parameters(); for (auto u : order) q.a->activationDegree(u);
        }
    }
    c.count("histories"); c.distinct(log);
}
// ---------------------------------------------------------------- factories
struct Obj { static long live; int id; explicit Obj(int i) : id(i) { ++live; } Obj(const Obj& o) : id(o.id) { ++live; } ~Obj() { --live; } Obj* clone() const { return new Obj(*this); } }; long Obj::live = 0;
static fl::Term* mk0() { return new fl::Triangle("0"); } static fl::Term* mk1() { return new fl::Ramp("1"); } static fl::Term* mk2() { return nullptr; } static fl::Term* mk3() { return new fl::Function("3"); }
static void factories(Ctx& c, Rng& r) {
    Obj::live = 0; std::string log; {
        typedef fl::CloningFactory<Obj*> F; std::vector<F> f; f.emplace_back("f"); f.emplace_back("g"); std::vector<std::map<std::string, int> > m(2); std::vector<std::string> nm{"f", "g"}; int id = 0; int steps = r.range(10, 60);
        for (int s = 0; s < steps; ++s) { int k = r.below(2), o = 1 - k; std::string key = std::string(1, (char) ('a' + r.below(5))), w;
            switch (r.below(10)) {
                case 0: case 1: case 2: w = "register " + key; if (r.chance(0.1)) { f[k].registerObject(key, nullptr); m[k][key] = -1; } else { f[k].registerObject(key, new Obj(id)); m[k][key] = id++; } break;
                case 3: case 4: w = "deregister " + key; f[k].deregisterObject(key); m[k].erase(key); break;
                case 5: w = "assign"; f[k] = f[o]; m[k] = m[o]; nm[k] = nm[o]; break;
                case 6: { w = "self"; F& x = f[k]; f[k] = x; break; }
                case 7: { w = "copy"; F x(f[k]); std::unique_ptr<F> y(f[k].clone()); if (x.available() != f[k].available() || y->available() != f[k].available() || x.name() != f[k].name()) c.violation("factory:copy", "a copied factory has other objects", log); for (auto& p : m[k]) if (p.second >= 0 && (x.getObject(p.first) == f[k].getObject(p.first) || x.getObject(p.first)->id != p.second)) c.violation("factory:shared", "a copied factory shares its objects", log); break; }
                case 8: w = "move"; f[k] = std::move(f[o]); m[k] = m[o]; nm[k] = nm[o]; f[o] = F("h"); m[o].clear(); nm[o] = "h"; break;
                default: if (r.chance(0.3)) { w = "clear"; f[k].clear(); m[k].clear(); } else { w = "again"; Obj* p = f[k].getObject(key); if (p) f[k].registerObject(key, p); } }
            log += w + "; "; c.count("operations on factories"); long n = 0;
            for (int q = 0; q < 2; ++q) { std::vector<std::string> keys; for (auto& p : m[q]) { keys.push_back(p.first); n += p.second >= 0; } if (f[q].available() != keys || f[q].objects().size() != keys.size() || f[q].name() != nm[q]) { c.violation("factory:keys", "the objects of a factory are not those registered after " + w, log); return; }
                for (int i = 0; i < 6; ++i) { std::string z(1, (char) ('a' + i)); bool has = m[q].count(z); if (f[q].hasObject(z) != has) c.violation("factory:has", "whether '" + z + "' is registered is wrong after " + w, log); Obj* g = f[q].getObject(z); int want = has ? m[q][z] : -1; if ((g ? g->id : -1) != want) c.violation("factory:get", "getting '" + z + "' gives another object after " + w, log); bool th = false; Obj* cl = nullptr; caught([&]() { cl = f[q].cloneObject(z); }, &th); if (th == has || (cl ? cl->id : -1) != want || (cl && cl == g)) c.violation("factory:clone", "cloning '" + z + "' gives something else after " + w, log); delete cl; } }
            if (Obj::live != n) { c.violation(Obj::live > n ? "factory:leak" : "factory:deleted", std::to_string(Obj::live) + " objects are alive, " + std::to_string(n) + " are registered after " + w, log); return; } } }
    if (Obj::live) c.violation("factory:leak", std::to_string(Obj::live) + " objects outlive their factories", log);
    { typedef fl::TermFactory F; typedef F::Constructor C; C cs[] = {mk0, mk1, mk2, mk3, nullptr}; F f; std::map<std::string, C> m = f.constructors(); std::string l2; if (m.size() < 20) c.violation("factory:terms", "the term factory knows only " + std::to_string(m.size()) + " terms");
        for (int s = 0; s < 15; ++s) { std::string key = r.coin() ? SHAPES[r.below(18)] : std::string(1, (char) ('a' + r.below(3))); C x = cs[r.below(5)]; if (r.chance(0.6)) { f.registerConstructor(key, x); m[key] = x; } else { f.deregisterConstructor(key); m.erase(key); } if (r.chance(0.2)) { F g(f); f = g; } std::vector<std::string> ks; for (auto& p : m) ks.push_back(p.first); if (f.available() != ks || f.constructors() != m) { c.violation("factory:constructors", "the constructors are not those registered", key); return; }
            for (int q = 0; q < 3; ++q) { std::string z = r.coin() ? key : std::string(1, (char) ('a' + r.below(3))); bool has = m.count(z), th = false; if (f.hasConstructor(z) != has || f.getConstructor(z) != (has ? m[z] : nullptr)) c.violation("factory:constructor", "the constructor of '" + z + "' is another one"); fl::Term* t = nullptr; caught([&]() { t = f.constructObject(z); }, &th); if (th == has || (t != nullptr) != (has && m[z] && m[z] != mk2)) c.violation("factory:construct", "constructing '" + z + "' does something else"); delete t; c.count("objects constructed"); } } }
    { fl::FactoryManager a, b(a); b.setTerm(new fl::TermFactory); b.setHedge(new fl::HedgeFactory); b.setTnorm(nullptr); fl::FactoryManager d; d = b; if (d.tnorm()) c.violation("manager", "an assigned manager has a factory that its source has not"); if (d.term() == b.term() || !d.term() || d.function() == a.function()) c.violation("manager:shared", "an assigned manager shares its factories"); d = *&d; std::unique_ptr<fl::FactoryManager> e(a.clone()); if (e->term()->available() != a.term()->available() || e->function()->available() != a.function()->available()) c.violation("manager:copy", "a copied manager has other constructors"); e->setFunction(new fl::FunctionFactory); e->setSnorm(new fl::SNormFactory); e->setDefuzzifier(nullptr); e->setActivation(new fl::ActivationFactory); c.count("managers copied"); }
    c.count("histories"); c.distinct(log);
}
// ---------------------------------------------------------------- values of terms, rules and exceptions
static void small(Ctx& c, Rng& r) {
    { fl::Discrete d("d"); std::vector<fl::Discrete::Pair> m; std::string log; for (int s = r.range(5, 30); s-- > 0;) { double x = r.dec(-2, 2, 1), y = r.unit(); switch (r.below(9)) { case 0: case 1: d.xy().push_back(fl::Discrete::Pair(x, y)); m.push_back({x, y}); break; case 2: { std::vector<fl::Discrete::Pair> p; for (int k = r.below(5); k-- > 0;) p.push_back({r.dec(-1, 1, 1), r.unit()}); d.setXY(p); m = p; break; } case 3: { bool st = r.coin(); if (st) d.sort(); else { std::vector<fl::Discrete::Pair> q = d.xy(); fl::Discrete::sort(q); d.setXY(q); } for (size_t i = 1; i < d.xy().size(); ++i) if (d.xy(i).first < d.xy(i - 1).first) c.violation("discrete:sort", "sorted points are not in order"); std::multiset<fl::Discrete::Pair> a(m.begin(), m.end()), b(d.xy().begin(), d.xy().end()); if (a != b) c.violation("discrete:sortset", "sorting changes the points"); m = d.xy(); break; } case 4: if (!m.empty()) { int i = r.below((int) m.size()); d.xy(i).second = y; m[i].second = y; } break; case 5: if (!m.empty()) { int i = r.below((int) m.size()); d.x(i) = x; m[i].first = x; d.y(i) = y; m[i].second = y; } break; case 6: { fl::Discrete e(d); d = e; std::unique_ptr<fl::Discrete> k(d.clone()); if (k->xy() != m) c.violation("discrete:copy", "a copied term has other points"); break; } case 7: { std::vector<double> v = fl::Discrete::toVector(m); if (v.size() != 2 * m.size() || fl::Discrete::toPairs(v) != m) c.violation("discrete:pairs", "points do not survive the conversion to a vector and back"); v.push_back(1); bool th = false; caught([&]() { fl::Discrete::toPairs(v); }, &th); if (!th) c.violation("discrete:odd", "an odd number of values makes pairs"); std::vector<fl::Discrete::Pair> z = fl::Discrete::toPairs(v, 7), want = m; want.push_back({1, 7}); if (z != want) c.violation("discrete:missing", "a missing value is not filled in"); break; } default: { bool th = false; caught([&]() { d.xy(m.size()); }, &th); bool t2 = false; caught([&]() { d.x(m.size() + 3); }, &t2); if (!th || !t2) c.violation("discrete:range", "a point beyond the last can be accessed"); } }
            const fl::Discrete& k = d; if (k.xy() != m) { c.violation("discrete:points", "the points are not those that the operations imply"); break; } std::vector<double> xs = k.x(), ys = k.y(); for (size_t i = 0; i < m.size(); ++i) if (xs[i] != m[i].first || ys[i] != m[i].second || k.x(i) != m[i].first || k.y(i) != m[i].second || k.xy(i) != m[i]) c.violation("discrete:views", "the coordinates are not those of the points"); if (!m.empty() || r.chance(0.1)) caught([&]() { d.membership(0.3); d.parameters(); d.toString(); }); c.count("operations on terms"); } }
    { fl::Engine e("e", "", {new fl::InputVariable("a", 0, 1), new fl::InputVariable("b", 0, 1)}, {new fl::OutputVariable("o", 0, 1)}); fl::Linear l("l"); std::vector<double> m; const fl::Engine* en = nullptr; for (int s = r.range(5, 20); s-- > 0;) { double x = r.dec(-2, 2); switch (r.below(6)) { case 0: l.coefficients().push_back(x); m.push_back(x); break; case 1: m.assign(r.below(5), x); l.setCoefficients(m); break; case 2: en = r.coin() ? &e : nullptr; l.setEngine(en); break; case 3: m.assign(r.below(4), x); en = r.coin() ? &e : nullptr; l.set(m, en); break; case 4: { fl::Linear k(l); l = k; break; } default: en = &e; l.updateReference(en); } e.getInputVariable(0)->setValue(0.5); e.getInputVariable(1)->setValue(2); if (l.coefficients() != m || l.getEngine() != en) c.violation("linear", "the coefficients or the engine are not those set"); bool th = false; double y = NaN; caught([&]() { y = l.membership(r.unit()); }, &th); if (!th && en && m.size() <= 3) { double want = 0; for (size_t i = 0; i < m.size() && i < 2; ++i) want += m[i] * (i ? 2 : 0.5); if (m.size() > 2) want += m[2]; if (!close(y, want, 1e-9)) c.violation("linear:value", "a linear term with coefficients " + vecStr(m) + " gives " + num(y) + " instead of " + num(want)); } c.count("operations on terms"); } }
    { GenOpts g; g.maxRules = 3; g.maxRes = 10; EngineSpec q = genEngine(r, g); std::unique_ptr<fl::Engine> e(buildApi(q)); if (!q.blocks.empty() && !q.blocks[0].rules.empty()) { std::string t = q.blocks[0].rules[0].text; std::unique_ptr<fl::Rule> u(new fl::Rule); bool loaded = false; for (int s = r.range(8, 30); s-- > 0;) { switch (r.below(11)) { case 0: u->load(t, e.get()); loaded = true; break; case 1: u->unload(); loaded = false; break; case 2: u->setText(t); u->load(e.get()); loaded = true; break; case 3: if (!caught([&]() { u->load("if then", e.get()); }).empty()) loaded = false; break; case 4: { std::unique_ptr<fl::Rule> k(u->clone()); if (k->getText() != u->getText() || k->getWeight() != u->getWeight()) c.violation("rule:copy", "a copied rule differs"); if (r.coin()) { u.swap(k); loaded = false; } break; } case 5: { fl::Rule k; k = *u; if (r.coin()) k.load(t, e.get()); break; } case 6: u->setAntecedent(new fl::Antecedent); loaded = false; break; case 7: u->setConsequent(new fl::Consequent); loaded = false; break; case 8: if (loaded) { caught([&]() { u->activateWith(e->getRuleBlock(0)->getConjunction(), e->getRuleBlock(0)->getDisjunction()); u->trigger(e->getRuleBlock(0)->getImplication()); }); } break; case 9: { std::unique_ptr<fl::Rule> k(fl::Rule::parse(t, e.get())); if (!k->isLoaded()) c.violation("rule:parse", "a parsed rule is not loaded"); break; } default: u->deactivate(); if (u->isTriggered() || u->getActivationDegree() != 0) c.violation("rule:deactivate", "a deactivated rule is active"); } if (u->isLoaded() != loaded) { c.violation("rule:loaded", std::string("the rule counts as ") + (loaded ? "not " : "") + "loaded"); break; } u->toString(); if (loaded) { u->getAntecedent()->toString(); u->getConsequent()->toString(); } c.count("operations on rules"); } for (auto o : e->outputVariables()) o->fuzzyOutput()->clear(); } }
    { fl::Exception x("first", FL_AT); x.append("second"); x.append("file", 3, "function"); x.append("third", "file", 4, "function"); fl::Exception y(x); y.setWhat("other"); if (x.getWhat().find("first") == std::string::npos || x.getWhat().find("second") == std::string::npos || std::string(y.what()) != "other" || std::string(x.what()) != x.getWhat()) c.violation("exception", "an exception loses its message"); c.count("exceptions"); }
    c.count("histories"); c.distinct(r.next());
}
static void run(Ctx& c, Rng& r, long idx) { switch (idx % 8) { case 0: case 1: case 2: case 3: world(c, r); break; case 4: case 5: sets(c, r); break; case 6: factories(c, r); break; default: small(c, r); } }
Property vf::PROPERTY("P03", 16000, 500000, run, "Random histories of public operations on up to three engines and detached parts: adding, inserting, replacing, removing (by index, by name, out of range), renaming, setting whole lists, sorting, copying, assigning, moving, loading, processing, printing, destroying; and on fuzzy sets, factories and their manager, points, coefficients and rules. After every operation all collections are compared with a model of plain sequences (sizes, order, identity, lookups by name with duplicates, failing lookups), under the address and undefined-behaviour sanitizers and an allocation balance.",
    {{"histories", 15900}, {"operations", 200000}, {"sequences compared", 1000000}, {"lookups by name", 2000000}, {"operations out of range", 2000}, {"engine copies", 2000}, {"engine moves", 500}, {"engine assignments", 500}, {"engines processed", 2000}, {"rules loaded", 1000}, {"operations on fuzzy sets", 40000}, {"operations on factories", 20000}, {"objects constructed", 20000}, {"operations on rules", 8000}});
