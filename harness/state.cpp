#include "state.hpp"
namespace vf {
using namespace fl;
struct Dec { int d; Dec(int n) : d(fl::fuzzylite::decimals()) { fl::fuzzylite::setDecimals(n); } ~Dec() { fl::fuzzylite::setDecimals(d); } };
static std::string nn(const Norm* n) {
    if (!n) return "none";
    std::string s = n->className();
    if (auto f = dynamic_cast<const TNormFunction*>(n)) s += " " + const_cast<TNormFunction*>(f)->function().getFormula();
    if (auto f = dynamic_cast<const SNormFunction*>(n)) s += " " + const_cast<SNormFunction*>(f)->function().getFormula();
    return s;
}
static std::string actStr(const Activated& a) { return (a.getTerm() ? a.getTerm()->getName() : std::string("null")) + " " + num(a.getDegree()) + " " + nn(a.getImplication()); }
std::string describeTerm(const Term* t) {
    if (!t) return "null";
    Dec dec(15);
    std::string s = t->className() + " " + t->getName() + " height " + num(t->getHeight()) + " ";
    if (auto a = dynamic_cast<const Activated*>(t)) return s + actStr(*a);
    if (auto a = dynamic_cast<const Aggregated*>(t)) {
        s += num(a->getMinimum()) + " " + num(a->getMaximum()) + " " + nn(a->getAggregation());
        for (size_t i = 0; i < a->numberOfTerms(); ++i) s += "\n  activated " + actStr(a->getTerm(i));
        return s;
    }
    if (auto f = dynamic_cast<const Function*>(t)) {
        s += f->getFormula() + (f->isLoaded() ? " loaded " + f->root()->toPostfix() : std::string(" not loaded"));
        // values of the engine's variables and of x are a cache of the last evaluation
        for (auto& p : f->variables) if (p.first != "x" && !(f->getEngine() && (f->getEngine()->hasInputVariable(p.first) || f->getEngine()->hasOutputVariable(p.first)))) s += " " + p.first + "=" + num(p.second);
        return s;
    }
    if (auto d = dynamic_cast<const Discrete*>(t)) { for (auto& p : d->xy()) s += num(p.first) + "," + num(p.second) + " "; return s; }
    if (auto l = dynamic_cast<const Linear*>(t)) { for (double x : l->coefficients()) s += num(x) + " "; return s; }
    s += t->parameters();
    return s;
}
std::string describeVar(const Variable* v, bool values) {
    std::string s = v->getName() + " '" + v->getDescription() + "' enabled " + std::to_string(v->isEnabled()) + " range " + num(v->getMinimum()) + " " + num(v->getMaximum()) + " lock " + std::to_string(v->isLockValueInRange());
    if (auto o = dynamic_cast<const OutputVariable*>(v)) {
        s = "output " + s + " default " + num(o->getDefaultValue()) + " lock-previous " + std::to_string(o->isLockPreviousValue()) + " aggregation " + nn(o->getAggregation()) + " fuzzy " + o->fuzzyOutput()->getName() + " " + num(o->fuzzyOutput()->getMinimum()) + " " + num(o->fuzzyOutput()->getMaximum());
        const Defuzzifier* d = o->getDefuzzifier(); s += " defuzzifier " + (d ? d->className() : std::string("none"));
        if (auto i = dynamic_cast<const IntegralDefuzzifier*>(d)) s += " " + std::to_string(i->getResolution());
        if (auto w = dynamic_cast<const WeightedDefuzzifier*>(d)) s += " " + std::to_string((int) w->getType());
        if (values) { s += "\n previous " + num(o->getPreviousValue()); for (size_t i = 0; i < o->fuzzyOutput()->numberOfTerms(); ++i) s += "\n activated " + actStr(o->fuzzyOutput()->getTerm(i)); }
    } else s = "input " + s;
    if (values) s += "\n value " + num(v->getValue());
    for (size_t i = 0; i < v->numberOfTerms(); ++i) s += "\n term " + describeTerm(v->getTerm(i));
    return s + "\n";
}
std::string describeRule(const Rule* q, bool values) {
    std::string s = "rule " + q->getText() + " weight " + num(q->getWeight()) + " enabled " + std::to_string(q->isEnabled()) + " loaded " + std::to_string(q->isLoaded());
    if (q->isLoaded()) s += " " + q->getAntecedent()->toPostfix() + " => " + q->getConsequent()->toString();
    if (values) s += "\n degree " + num(q->getActivationDegree()) + " triggered " + std::to_string(q->isTriggered());
    return s + "\n";
}
std::string describeBlock(const RuleBlock* b, bool values) {
    Dec d(15);
    std::string s = "block " + b->getName() + " '" + b->getDescription() + "' enabled " + std::to_string(b->isEnabled()) + " " + nn(b->getConjunction()) + " " + nn(b->getDisjunction()) + " " + nn(b->getImplication()) + " " + (b->getActivation() ? b->getActivation()->className() + " " + b->getActivation()->parameters() : std::string("none")) + "\n";
    for (size_t i = 0; i < b->numberOfRules(); ++i) s += describeRule(b->getRule(i), values);
    return s;
}
std::string describe(const Engine* e, bool values) {
    std::string s = "engine " + e->getName() + " '" + e->getDescription() + "'\n";
    for (size_t i = 0; i < e->numberOfInputVariables(); ++i) s += describeVar(e->getInputVariable(i), values);
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) s += describeVar(e->getOutputVariable(i), values);
    for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) s += describeBlock(e->getRuleBlock(i), values);
    return s;
}
std::string diffText(const std::string& a, const std::string& b) {
    if (a == b) return "";
    std::istringstream x(a), y(b); std::string p, q; int n = 0;
    while (true) {
        bool l = (bool) std::getline(x, p), m = (bool) std::getline(y, q); ++n;
        if (!l) p = "(end)"; if (!m) q = "(end)";
        if (p != q) return "line " + std::to_string(n) + ": '" + p + "' vs '" + q + "'";
        if (!l && !m) return "";
    }
}
void owned(const Variable* v, std::set<const void*>& s, bool roots) {
    s.insert(v); for (auto t : v->terms()) s.insert(t);
    if (auto o = dynamic_cast<const OutputVariable*>(v)) { s.insert(o->fuzzyOutput()); if (o->getAggregation()) s.insert(o->getAggregation()); if (o->getDefuzzifier()) s.insert(o->getDefuzzifier()); }
    if (roots) for (auto t : v->terms()) if (auto f = dynamic_cast<const Function*>(t)) if (f->root()) s.insert(f->root());
}
void owned(const RuleBlock* b, std::set<const void*>& s) {
    s.insert(b); if (b->getConjunction()) s.insert(b->getConjunction()); if (b->getDisjunction()) s.insert(b->getDisjunction()); if (b->getImplication()) s.insert(b->getImplication()); if (b->getActivation()) s.insert(b->getActivation());
    for (auto q : b->rules()) {
        s.insert(q); s.insert(q->getAntecedent()); s.insert(q->getConsequent());
        for (auto p : q->getConsequent()->conclusions()) { s.insert(p); for (auto h : p->hedges) s.insert(h); }
        std::vector<Expression*> st; if (q->getAntecedent()->getExpression()) st.push_back(q->getAntecedent()->getExpression());
        while (!st.empty()) { Expression* x = st.back(); st.pop_back(); s.insert(x); if (auto o = dynamic_cast<Operator*>(x)) { if (o->left) st.push_back(o->left); if (o->right) st.push_back(o->right); } else for (auto h : dynamic_cast<Proposition*>(x)->hedges) s.insert(h); }
    }
}
std::set<const void*> owned(const Engine* e, bool roots) {
    std::set<const void*> s; s.insert(e);
    for (auto v : e->inputVariables()) owned(v, s, roots);
    for (auto v : e->outputVariables()) owned(v, s, roots);
    for (auto b : e->ruleBlocks()) owned(b, s);
    return s;
}
static std::string foreignProp(const Engine* e, const Proposition* p) {
    for (auto v : e->variables()) if (v == p->variable) { if (!p->term) return ""; for (auto t : v->terms()) if (t == p->term) return ""; return "a proposition about " + v->getName() + " refers to a term which is not one of its terms"; }
    return "a proposition refers to a variable which is not in the engine";
}
std::string foreign(const Engine* e) {
    std::set<const void*> impl; for (auto b : e->ruleBlocks()) if (b->getImplication()) impl.insert(b->getImplication());
    for (auto v : e->variables()) for (auto t : v->terms()) {
        if (auto f = dynamic_cast<Function*>(t)) if (f->getEngine() && f->getEngine() != e) return "the function " + f->getName() + " refers to another engine";
        if (auto l = dynamic_cast<Linear*>(t)) if (l->getEngine() && l->getEngine() != e) return "the linear term " + l->getName() + " refers to another engine";
    }
    for (auto o : e->outputVariables()) for (auto& a : o->fuzzyOutput()->terms()) {
        bool ok = false; for (auto t : o->terms()) ok = ok || t == a.getTerm();
        if (!ok) return "the fuzzy output of " + o->getName() + " refers to a term which is not one of its terms";
        if (a.getImplication() && !impl.count(a.getImplication())) return "the fuzzy output of " + o->getName() + " refers to an implication operator which is not in the engine";
    }
    for (auto b : e->ruleBlocks()) for (auto q : b->rules()) {
        for (auto p : q->getConsequent()->conclusions()) { std::string d = foreignProp(e, p); if (!d.empty()) return d; }
        std::vector<Expression*> st; if (q->getAntecedent()->getExpression()) st.push_back(q->getAntecedent()->getExpression());
        while (!st.empty()) { Expression* x = st.back(); st.pop_back(); if (auto o = dynamic_cast<Operator*>(x)) { st.push_back(o->left); st.push_back(o->right); } else { std::string d = foreignProp(e, dynamic_cast<Proposition*>(x)); if (!d.empty()) return d; } }
    }
    return "";
}
std::string mutateTerm(Term* t, Rng& r) {
    if (r.chance(0.3)) { double h = r.dec(0.1, 1); t->setHeight(h); return "height of " + t->getName() + "=" + num(h); }
    if (auto d = dynamic_cast<Discrete*>(t)) { if (!d->xy().empty()) { if (r.coin()) d->y(r.below((int) d->xy().size())) = r.dec(0, 1); else d->xy().pop_back(); } return "points of " + t->getName(); }
    if (auto l = dynamic_cast<Linear*>(t)) { if (!l->coefficients().empty()) l->coefficients()[r.below((int) l->coefficients().size())] = r.dec(-3, 3); return "coefficient of " + t->getName(); }
    if (auto f = dynamic_cast<Function*>(t)) {
        if (r.coin()) { f->variables["k"] = r.dec(-2, 2); return "variable of " + t->getName(); }
        std::string s = "x*" + num(r.dec(0, 3)) + "+1"; f->load(s, f->getEngine()); return "formula of " + t->getName();
    }
    if (auto k = dynamic_cast<Constant*>(t)) { k->setValue(r.dec(-3, 3)); return "value of " + t->getName(); }
    std::vector<std::string> v = Op::split(t->parameters(), " "); if (v.empty()) return "nothing";
    int i = r.below((int) v.size()); double x = Op::toScalar(v[i], 0.0); v[i] = num(x == x && std::isfinite(x) ? x + r.dec(-0.4, 0.4) : r.dec(-1, 1)); t->configure(Op::join(v, " ")); return "parameters of " + t->getName();
}
static SNorm* sn(Rng& r) { return FactoryManager::instance()->snorm()->constructObject(SNORMS[r.below(9)]); }
static TNorm* tn(Rng& r) { return FactoryManager::instance()->tnorm()->constructObject(TNORMS[r.below(7)]); }
std::string mutateVar(Variable* v, Rng& r, bool structure) {
    OutputVariable* o = dynamic_cast<OutputVariable*>(v); std::string n = v->getName() + ": ";
    switch (r.below(o ? 16 : 9)) {
        case 0: v->setEnabled(!v->isEnabled()); return n + "enabled";
        case 1: { double a = r.dec(-3, 0), b = a + r.dec(0.5, 4); v->setRange(a, b); return n + "range"; }
        case 2: v->setLockValueInRange(!v->isLockValueInRange()); return n + "lock-range";
        case 3: v->setDescription("changed " + std::to_string(r.below(99))); return n + "description";
        case 4: { double x = r.dec(-2, 2); v->setValue(x); return n + "value"; }
        case 5: if (structure) { v->setName("renamed_" + std::to_string(r.below(99))); return n + "renamed"; }
        /* fall through */
        case 6: if (structure && v->numberOfTerms()) { delete v->removeTerm(r.below((int) v->numberOfTerms())); return n + "term removed"; }
        /* fall through */
        case 7: if (v->numberOfTerms()) return n + mutateTerm(v->getTerm(r.below((int) v->numberOfTerms())), r);
        /* fall through */
        case 8: v->insertTerm(new Triangle("added", 0, 0.5, 1), r.below((int) v->numberOfTerms() + 1)); return n + "term added";
        case 9: o->setDefaultValue(r.dec(-2, 2)); return n + "default";
        case 10: o->setLockPreviousValue(!o->isLockPreviousValue()); return n + "lock-previous";
        case 11: o->setAggregation(r.chance(0.1) ? nullptr : sn(r)); return n + "aggregation";
        case 12: o->setDefuzzifier(r.chance(0.1) ? nullptr : (Defuzzifier*) new Bisector(r.range(10, 99))); return n + "defuzzifier";
        case 13: o->setPreviousValue(r.dec(-2, 2)); return n + "previous value";
        case 14: if (auto i = dynamic_cast<IntegralDefuzzifier*>(o->getDefuzzifier())) i->setResolution(r.range(5, 99)); else if (auto w = dynamic_cast<WeightedDefuzzifier*>(o->getDefuzzifier())) w->setType((WeightedDefuzzifier::Type) r.below(3)); return n + "defuzzifier parameter";
        default: if (r.coin()) { o->clear(); return n + "clear"; } if (o->fuzzyOutput()->numberOfTerms()) { if (r.coin()) o->fuzzyOutput()->removeTerm(r.below((int) o->fuzzyOutput()->numberOfTerms())); else o->fuzzyOutput()->terms()[0].setDegree(r.dec(0, 1)); } return n + "fuzzy output";
    }
}
std::string mutateBlock(RuleBlock* b, Rng& r, bool structure) {
    std::string n = b->getName() + ": "; Rule* q = b->numberOfRules() ? b->getRule(r.below((int) b->numberOfRules())) : nullptr;
    switch (r.below(13)) {
        case 0: b->setEnabled(!b->isEnabled()); return n + "enabled";
        case 1: b->setDescription("changed " + std::to_string(r.below(99))); return n + "description";
        case 2: b->setConjunction(tn(r)); return n + "conjunction";
        case 3: b->setDisjunction(sn(r)); return n + "disjunction";
        case 4: b->setImplication(r.chance(0.2) ? (TNorm*) new TNormFunction("a*b") : tn(r)); return n + "implication";
        case 5: b->setActivation(r.coin() ? (Activation*) new Threshold(Threshold::GreaterThan, r.dec(0, 0.5)) : new Highest(r.range(1, 3))); return n + "activation";
        case 6: if (Threshold* t = dynamic_cast<Threshold*>(b->getActivation())) t->setValue(r.dec(0, 1)); else if (First* f = dynamic_cast<First*>(b->getActivation())) f->setNumberOfRules(r.range(1, 4)); else if (Highest* h = dynamic_cast<Highest*>(b->getActivation())) h->setNumberOfRules(r.range(1, 4)); return n + "activation parameters";
        case 7: if (q) q->setEnabled(!q->isEnabled()); return n + "rule enabled";
        case 8: if (q) q->setWeight(r.dec(0, 1)); return n + "rule weight";
        case 9: if (q) q->setActivationDegree(r.dec(0, 1)); return n + "rule degree";
        case 10: if (q && structure) { q->unload(); return n + "rule unloaded"; } return n + "nothing";
        case 11: if (q && structure) { delete b->removeRule(r.below((int) b->numberOfRules())); return n + "rule removed"; } return n + "nothing";
        default: if (q && q->isLoaded()) { auto& c = q->getConsequent()->conclusions(); if (!c.empty() && structure) { c[0]->hedges.push_back(new Very); return n + "hedge added"; } } if (q) q->setTriggered(!q->isTriggered()); return n + "rule triggered";
    }
}
static std::string mutate1(Engine* e, Rng& r, bool structure);
std::string mutate(Engine* e, Rng& r, bool structure) {
    std::string s = mutate1(e, r, structure);
    // activated terms borrow the implication operator of their block
    if (s.find("implication") != std::string::npos || s.find("removed") != std::string::npos) for (auto o : e->outputVariables()) o->fuzzyOutput()->clear();
    return s;
}
static std::string mutate1(Engine* e, Rng& r, bool structure) {
    switch (r.below(structure ? 10 : 8)) {
        case 0: case 1: if (e->numberOfInputVariables()) return mutateVar(e->getInputVariable(r.below((int) e->numberOfInputVariables())), r, false);
        /* fall through */
        case 2: case 3: if (e->numberOfOutputVariables()) return mutateVar(e->getOutputVariable(r.below((int) e->numberOfOutputVariables())), r, false);
        /* fall through */
        case 4: case 5: case 6: if (e->numberOfRuleBlocks()) return mutateBlock(e->getRuleBlock(r.below((int) e->numberOfRuleBlocks())), r, structure);
        /* fall through */
        case 7: e->setName("engine" + std::to_string(r.below(99))); if (r.coin()) e->setDescription("changed"); return "engine name";
        default: switch (r.below(4)) {
            case 0: e->addInputVariable(new InputVariable("extra", 0, 1)); return "input added";
            case 1: e->insertOutputVariable(new OutputVariable("extra", 0, 1), 0); return "output added";
            case 2: { RuleBlock* b = new RuleBlock("extra"); e->addRuleBlock(b); return "block added"; }
            default: if (e->numberOfRuleBlocks()) delete e->removeRuleBlock(0); return "block removed";
        }
    }
}
}
