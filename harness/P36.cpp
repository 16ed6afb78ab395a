#include "state.hpp"
#include "mutator.hpp"
#include <cstdlib>
#include <unistd.h>
#include <new>
#include <type_traits>
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif
#ifdef VF_FILL
// memory from the heap holds a pattern until it is written
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, VF_FILL, n); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
using namespace vf;
static std::vector<std::string> FLL, FIS, FCL; static FILE* OBS = nullptr;
static void init(Ctx&) { FLL = examplesOf(".fll"); FIS = examplesOf(".fis"); FCL = examplesOf(".fcl"); const char* p = getenv("VF_OBS"); if (p) OBS = fopen((std::string(p) + "/obs." + std::to_string((long) getpid())).c_str(), "w"); }
#ifndef VF_FILL
#define VF_FILL 0xA5
#endif
static std::string B(bool b) { return b ? "true" : "false"; }
static std::string first(const std::string& w) { return w.substr(0, w.find('\n')); }
static std::string term(fl::Term* t) {
    std::string s = describeTerm(t) + "|"; auto ex = [&](const std::function<std::string()>& f) { std::string v, w = caught([&]() { v = f(); }); s += (w.empty() ? v : first(w)) + ";"; };
    ex([&]() { return t->parameters(); }); ex([&]() { return t->toString(); }); ex([&]() { return B(t->isMonotonic()); }); for (double x : {-1.0, 0.0, 0.25, 0.5, 2.0, NaN, Inf}) ex([&]() { return num(t->membership(x)); }); ex([&]() { return num(t->tsukamoto(0.4)); });
    if (auto f = dynamic_cast<fl::Function*>(t)) s += B(f->isLoaded()) + f->getFormula() + B(f->getEngine()) + B(f->root()); if (auto l = dynamic_cast<fl::Linear*>(t)) s += B(l->getEngine()) + std::to_string(l->coefficients().size()); if (auto d = dynamic_cast<fl::Discrete*>(t)) s += std::to_string(d->xy().size());
    if (auto a = dynamic_cast<fl::Activated*>(t)) s += num(a->getDegree()) + B(a->getTerm()) + B(a->getImplication()); if (auto a = dynamic_cast<fl::Aggregated*>(t)) { s += num(a->getMinimum()) + num(a->getMaximum()) + B(a->getAggregation()) + num(a->range()); ex([&]() { fl::Activated h = a->highestActivatedTerm(); return num(h.getDegree()) + B(h.getTerm()); }); }
    return s + "\n";
}
static std::string activation(fl::Activation* a) { std::string s = a->className() + " " + a->parameters() + " "; if (auto x = dynamic_cast<fl::First*>(a)) s += std::to_string(x->getNumberOfRules()) + num(x->getThreshold()); if (auto x = dynamic_cast<fl::Last*>(a)) s += std::to_string(x->getNumberOfRules()) + num(x->getThreshold()); if (auto x = dynamic_cast<fl::Highest*>(a)) s += std::to_string(x->getNumberOfRules()); if (auto x = dynamic_cast<fl::Lowest*>(a)) s += std::to_string(x->getNumberOfRules()); if (auto x = dynamic_cast<fl::Threshold*>(a)) s += x->comparisonOperator() + num(x->getValue()) + std::to_string((int) x->getComparison()); return s + a->toString() + "\n"; }
static std::string defuzzifier(fl::Defuzzifier* d) { std::string s = d->className(); if (auto x = dynamic_cast<fl::IntegralDefuzzifier*>(d)) s += std::to_string(x->getResolution()); if (auto x = dynamic_cast<fl::WeightedDefuzzifier*>(d)) s += x->getTypeName() + std::to_string((int) x->getType()); fl::Aggregated a("a", 0, 1, new fl::Maximum); s += caught([&]() { s += num(d->defuzzify(&a, 0, 1)); }).substr(0, 20); return s + "\n"; }
// a copy in memory that holds a pattern, looked at before anything else is done to it
template <typename T, typename F> static std::string relook(T* from, int k, F look, std::true_type) { void* p = std::malloc(sizeof(T)); std::memset(p, k ? VF_FILL ^ 0xFF : VF_FILL, sizeof(T));
#ifdef VF_VALGRIND
    if (VALGRIND_MAKE_MEM_UNDEFINED(p, sizeof(T))) {}
#endif
    T* o = new (p) T(*from); std::string x = "copy " + look(o); o->~T(); std::free(p); return x; }
template <typename T, typename F> static std::string relook(T*, int, F, std::false_type) { return ""; }
// an object in memory that holds a pattern
template <typename T, typename F> static std::string placed(F look) { std::string s; for (int k = 0; k < 2; ++k) { void* p = std::malloc(sizeof(T)); std::memset(p, k ? VF_FILL ^ 0xFF : VF_FILL, sizeof(T));
#ifdef VF_VALGRIND
        if (VALGRIND_MAKE_MEM_UNDEFINED(p, sizeof(T))) {}
#endif
        T* o = new (p) T; std::string x = relook<T>(o, k, look, std::is_copy_constructible<T>()) + look(o); o->~T(); std::free(p); if (k && x != s) return s + " but " + x + " DIFFERS\n"; s = x; } return s; }
static std::string benchmark(fl::Benchmark* b) { return b->getName() + B(b->getEngine()) + num(b->getTolerance()) + std::to_string(b->getExpected().size()) + std::to_string(b->getObtained().size()) + std::to_string(b->getTimes().size()) + "|" + caught([&]() { b->prepare(3, fl::FldExporter::AllVariables); }).substr(0, 60) + B(b->canComputeErrors()) + "\n"; }
template <typename T> static std::string termOf() { return placed<T>([](T* t) { return term(t); }); }
static std::string defaults(int k) {
    fl::FactoryManager* m = fl::FactoryManager::instance(); std::string s;
    switch (k) {
        case 0: s = termOf<fl::Bell>() + termOf<fl::Binary>() + termOf<fl::Concave>() + termOf<fl::Constant>() + termOf<fl::Cosine>() + termOf<fl::Discrete>() + termOf<fl::Function>() + termOf<fl::Gaussian>() + termOf<fl::GaussianProduct>() + termOf<fl::Linear>() + termOf<fl::PiShape>() + termOf<fl::Ramp>(); break;
        case 1: s = termOf<fl::Rectangle>() + termOf<fl::SShape>() + termOf<fl::Sigmoid>() + termOf<fl::SigmoidDifference>() + termOf<fl::SigmoidProduct>() + termOf<fl::Spike>() + termOf<fl::Trapezoid>() + termOf<fl::Triangle>() + termOf<fl::ZShape>() + termOf<fl::Activated>() + termOf<fl::Aggregated>(); break;
        case 2: for (auto& q : m->term()->available()) { std::unique_ptr<fl::Term> t(m->term()->constructObject(q)); if (t.get()) { s += term(t.get()); std::unique_ptr<fl::Term> u(t->clone()); s += term(u.get()); } } break;
        case 3: s = placed<fl::First>([](fl::First* a) { return activation(a); }) + placed<fl::Last>([](fl::Last* a) { return activation(a); }) + placed<fl::Highest>([](fl::Highest* a) { return activation(a); }) + placed<fl::Lowest>([](fl::Lowest* a) { return activation(a); }) + placed<fl::Proportional>([](fl::Proportional* a) { return activation(a); }) + placed<fl::Threshold>([](fl::Threshold* a) { return activation(a); }) + placed<fl::General>([](fl::General* a) { return activation(a); }); break;
        case 4: s = placed<fl::Centroid>([](fl::Centroid* a) { return defuzzifier(a); }) + placed<fl::Bisector>([](fl::Bisector* a) { return defuzzifier(a); }) + placed<fl::MeanOfMaximum>([](fl::MeanOfMaximum* a) { return defuzzifier(a); }) + placed<fl::SmallestOfMaximum>([](fl::SmallestOfMaximum* a) { return defuzzifier(a); }) + placed<fl::LargestOfMaximum>([](fl::LargestOfMaximum* a) { return defuzzifier(a); }) + placed<fl::WeightedAverage>([](fl::WeightedAverage* a) { return defuzzifier(a); }) + placed<fl::WeightedSum>([](fl::WeightedSum* a) { return defuzzifier(a); }); break;
        case 5: s = placed<fl::Engine>([](fl::Engine* e) { std::string t, q; e->type(&t, &q); std::string u; e->isReady(&u); e->process(); e->restart(); return describe(e) + e->toString() + t + q + u; })
            + placed<fl::Variable>([](fl::Variable* v) { return describeVar(v) + v->toString() + num(v->getValue()) + num(v->range()) + v->fuzzify(0.3) + B(v->highestMembership(0.3)) + std::to_string((int) v->type()); })
            + placed<fl::InputVariable>([](fl::InputVariable* v) { return describeVar(v) + v->toString() + v->fuzzyInputValue(); })
            + placed<fl::OutputVariable>([](fl::OutputVariable* v) { std::string t = describeVar(v) + v->toString() + v->fuzzyOutputValue() + v->fuzzyOutput()->toString(); v->clear(); t += describeVar(v); t += caught([&]() { v->defuzzify(); }).substr(0, 40); return t + describeVar(v); })
            + placed<fl::RuleBlock>([](fl::RuleBlock* b) { return describeBlock(b) + b->toString() + B(b->getActivation()) + B(b->getConjunction()) + caught([&]() { b->activate(); }).substr(0, 40); })
            + placed<fl::Rule>([](fl::Rule* q) { std::string t = describeRule(q) + q->toString() + B(q->isEnabled()) + B(q->isLoaded()) + num(q->getWeight()); t += caught([&]() { q->activateWith(nullptr, nullptr); }).substr(0, 40); t += caught([&]() { q->trigger(nullptr); }).substr(0, 40); return t + describeRule(q); }); break;
        case 6: s = placed<fl::Antecedent>([](fl::Antecedent* a) { return a->getText() + B(a->isLoaded()) + B(a->getExpression()) + caught([&]() { a->toString(); }).substr(0, 40); }) + placed<fl::Consequent>([](fl::Consequent* a) { return a->getText() + B(a->isLoaded()) + std::to_string(a->conclusions().size()) + caught([&]() { a->toString(); }).substr(0, 40); }) + placed<fl::Proposition>([](fl::Proposition* p) { return B(p->variable) + B(p->term) + std::to_string(p->hedges.size()) + p->toString(); }) + placed<fl::Operator>([](fl::Operator* p) { return p->name + B(p->left) + B(p->right) + p->toString(); }) + placed<fl::Benchmark>([](fl::Benchmark* b) { return benchmark(b); }); break;
        case 7: s = placed<fl::FldExporter>([](fl::FldExporter* x) { return x->getSeparator() + B(x->exportsHeader()) + B(x->exportsInputValues()) + B(x->exportsOutputValues()); }) + placed<fl::CppExporter>([](fl::CppExporter* x) { return B(x->isUsingNamespace()) + B(x->isUsingVariableNames()); }) + placed<fl::JavaExporter>([](fl::JavaExporter* x) { return B(x->isUsingVariableNames()); }) + placed<fl::FllExporter>([](fl::FllExporter* x) { return x->getIndent() + x->getSeparator(); }) + placed<fl::FllImporter>([](fl::FllImporter* x) { return x->getSeparator(); }) + placed<fl::RScriptExporter>([](fl::RScriptExporter* x) { fl::Engine e("e", "", {new fl::InputVariable("a", 0, 1)}, {new fl::OutputVariable("o", 0, 1)}); e.getOutputVariable(0)->setDefuzzifier(new fl::Centroid); return x->name() + x->toString(&e, e.getInputVariable(0), e.getInputVariable(0), 4, fl::FldExporter::AllVariables, e.outputVariables()); }); break;
        case 8: { fl::Function::Element a("n", "d", fl::Function::Element::Operator), b("n", "d", fl::Function::Element::Function), c1("u", "d", fl::Function::Element::Operator, (fl::Function::Unary) & std::sin, 3, -1), c2("u", "d", fl::Function::Element::Function, (fl::Function::Binary) & std::pow, 3, -1); for (auto x : {&a, &b, &c1, &c2}) { s += x->name + x->description + std::to_string((int) x->type) + B(x->unary) + B(x->binary) + std::to_string(x->arity) + std::to_string(x->precedence) + std::to_string(x->associativity) + x->toString(); std::unique_ptr<fl::Function::Element> k(x->clone()); s += k->toString() + std::to_string(k->arity) + std::to_string(k->precedence) + std::to_string(k->associativity); }
            fl::Function::Node n1("v"), n2(0.5), n3(b.clone()); for (auto x : {&n1, &n2, &n3}) { s += B(x->element.get()) + B(x->left.get()) + B(x->right.get()) + x->variable + num(x->constant) + caught([&]() { s += num(x->evaluate()); }).substr(0, 30) + x->toString() + caught([&]() { s += x->toPrefix() + x->toInfix() + x->toPostfix(); }).substr(0, 30); } break; }
        case 9: for (auto& q : m->hedge()->available()) { std::unique_ptr<fl::Hedge> t(m->hedge()->constructObject(q)); if (t.get()) s += t->name() + num(t->hedge(0.3)); } for (auto& q : m->tnorm()->available()) { std::unique_ptr<fl::TNorm> t(m->tnorm()->constructObject(q)); if (t.get()) s += t->className() + num(t->compute(0.3, 0.6)); } for (auto& q : m->snorm()->available()) { std::unique_ptr<fl::SNorm> t(m->snorm()->constructObject(q)); if (t.get()) s += t->className() + num(t->compute(0.3, 0.6)); } for (auto& q : m->defuzzifier()->available()) { std::unique_ptr<fl::Defuzzifier> t(m->defuzzifier()->constructObject(q)); if (t.get()) s += defuzzifier(t.get()); } for (auto& q : m->activation()->available()) { std::unique_ptr<fl::Activation> t(m->activation()->constructObject(q)); if (t.get()) s += activation(t.get()); } for (auto& q : m->function()->available()) { std::unique_ptr<fl::Function::Element> t(m->function()->cloneObject(q)); s += t->toString() + std::to_string(t->arity) + std::to_string(t->precedence) + std::to_string(t->associativity); }
            s += placed<fl::TNormFunction>([](fl::TNormFunction* t) { return t->className() + caught([&]() { num(t->compute(0.1, 0.2)); }).substr(0, 40); }) + placed<fl::SNormFunction>([](fl::SNormFunction* t) { return t->className() + caught([&]() { num(t->compute(0.1, 0.2)); }).substr(0, 40); }) + placed<fl::HedgeFunction>([](fl::HedgeFunction* t) { return t->name() + caught([&]() { num(t->hedge(0.1)); }).substr(0, 40); }); break;
        default: break;
    }
    return s;
}
static const int DEFAULTS = 10;
static std::string outputs(fl::Engine* e, Rng& r, const EngineSpec* s, int n) {
    std::string t; for (int k = 0; k < n; ++k) { std::string w = caught([&]() { for (size_t i = 0; i < e->numberOfInputVariables(); ++i) e->getInputVariable(i)->setValue(r.chance(0.1) ? NaN : s ? genInput(r, s->in[i], r.chance(0.1)) : r.real(-2, 2)); e->process(); }); t += first(w) + describe(e); }
    for (auto o : e->outputVariables()) t += o->fuzzyOutputValue() + num(o->getPreviousValue()) + caught([&]() { t += num(o->fuzzyOutput()->membership(0.3)); }).substr(0, 20);
    return t;
}
static std::string observe(Ctx& c, Rng& r, long idx) {
    if (idx % 20 == 0) { c.count("default-constructed objects looked at", 10); return defaults((idx / 20) % DEFAULTS); }
    std::string s; auto ex = [&](const char* what, const std::function<std::string()>& f) { std::string v, w = caught([&]() { v = f(); }); s += std::string(what) + ": " + (w.empty() ? v : first(w)) + "\n"; c.count(w.empty() ? what : "failures"); };
    int kind = (int) (idx % 3);
    if (kind == 0) {        // arbitrary text
        int fmt = r.below(3); const std::vector<std::string>& e = fmt == 0 ? FLL : fmt == 1 ? FIS : FCL; const std::vector<std::string>& d = fmt == 0 ? FLL_DICT : fmt == 1 ? FIS_DICT : FCL_DICT; std::string t;
        if (!e.empty() && r.coin()) t = e[(int) (e.size() * 0.4 * r.unit())]; else { GenOpts g; g.heavy = 0.04; g.maxRules = 3; g.maxTerms = 3; g.maxRes = 20; EngineSpec q = genEngine(r, g); std::unique_ptr<fl::Engine> p(buildApi(q)); caught([&]() { t = fmt == 0 ? toFll(q) : fmt == 1 ? fl::FisExporter().toString(p.get()) : fl::FclExporter().toString(p.get()); }); }
        if (r.chance(0.8)) t = mutateText(r, t, d, t, r.range(1, 4));
        std::unique_ptr<fl::Engine> i; ex("imports", [&]() { i.reset(fmt == 0 ? fl::FllImporter().fromString(t) : fmt == 1 ? fl::FisImporter().fromString(t) : fl::FclImporter().fromString(t)); return describe(i.get()); });
        if (i.get()) { for (auto o : i->outputVariables()) if (auto f = dynamic_cast<fl::IntegralDefuzzifier*>(o->getDefuzzifier())) if (f->getResolution() > 40) f->setResolution(20);
            ex("imported engines processed", [&]() { return outputs(i.get(), r, nullptr, 2); }); ex("imported engines described", [&]() { std::string a, b, m; i->type(&a, &b); i->isReady(&m); return i->toString() + a + b + m; }); ex("copies", [&]() { std::unique_ptr<fl::Engine> k(i->clone()); return describe(k.get()); }); }
        return s;
    }
    GenOpts g; g.maxRules = 4; g.maxTerms = 4; g.maxIn = 3; g.maxRes = 20; g.unloaded = true; g.locks = 0.3; EngineSpec q = genEngine(r, g); c.note(specStr(q)); std::unique_ptr<fl::Engine> e;
    ex("engines built", [&]() { e.reset(buildApi(q)); return describe(e.get()); }); if (!e.get()) return s;
    ex("engines processed", [&]() { return outputs(e.get(), r, &q, 2); });
    if (kind == 1) {
        ex("exports", [&]() { return fl::FllExporter().toString(e.get()) + fl::CppExporter().toString(e.get()) + fl::JavaExporter().toString(e.get()); }); ex("exports", [&]() { return fl::FisExporter().toString(e.get()); }); ex("exports", [&]() { return fl::FclExporter().toString(e.get()); }); ex("datasets", [&]() { return fl::FldExporter().toString(e.get(), 8, fl::FldExporter::AllVariables); });
        ex("queries", [&]() { std::string t, a, b, m; t = B(e->isReady(&m)) + m; e->type(&a, &b); t += a + b; for (auto v : e->variables()) { double y = -1; fl::Term* h = v->highestMembership(0.2, &y); t += v->fuzzify(0.3) + B(h) + num(y); for (auto& x : v->activations(0.1)) t += num(x.getDegree()); v->sort(); t += describeVar(v); } return t; });
        ex("benchmarks", [&]() { fl::Benchmark b("b", e.get()); b.prepare(4, fl::FldExporter::AllVariables); b.run(2); std::string t; for (auto& x : b.getObtained()) t += vecStr(x); for (auto& p : b.results(fl::Benchmark::NanoSeconds, false)) if (std::string(" name inputs outputs ruleBlocks rules runs evaluations outputVariable range tolerance errors weightedErrors rmse nrmse units ").find(" " + p.first + " ") != std::string::npos) t += p.first + "=" + p.second + ";"; return t; });
    } else {
        std::unique_ptr<fl::Engine> k; ex("copies", [&]() { k.reset(r.coin() ? e->clone() : new fl::Engine(*e)); std::string t = describe(k.get()); if (r.coin()) { fl::Engine z; z = *k; t += describe(&z); *k = z; } return t; });
        for (int i = 0; i < 4; ++i) ex("changes", [&]() { std::string m = mutate(k.get(), r, true); for (auto o : k->outputVariables()) o->fuzzyOutput()->clear(); return m + describe(k.get()); }); for (auto o : k->outputVariables()) if (auto f = dynamic_cast<fl::IntegralDefuzzifier*>(o->getDefuzzifier())) if (f->getResolution() > 40) f->setResolution(20);
        ex("engines processed", [&]() { return outputs(k.get(), r, nullptr, 2); }); ex("restarts", [&]() { e->restart(); return outputs(e.get(), r, &q, 1); });
        ex("failed configurations", [&]() { std::string t; for (int i = 0; i < 6; ++i) { std::unique_ptr<fl::Term> x(fl::FactoryManager::instance()->term()->constructObject(SHAPES[r.below(18)])); std::string p; for (int j = r.below(6); j-- > 0;) p += hostileNumber(r) + " "; t += first(caught([&]() { x->configure(p); })).substr(0, 50) + term(x.get()); } return t; });
    }
    return s;
}
static void run(Ctx& c, Rng& r, long idx) {
#ifdef VF_VALGRIND
    unsigned long e0 = VALGRIND_COUNT_ERRORS;
#endif
    std::string s = observe(c, r, idx); c.distinct(s); c.count("observed characters", (long) s.size());
    if (s.find("DIFFERS") != std::string::npos) c.violation("default", "a default-constructed object depends on the memory it is constructed in", s.substr(0, 4000));
#ifdef VF_VALGRIND
    c.count("cases under memcheck"); if (VALGRIND_COUNT_ERRORS > e0) c.violation("memcheck", "memcheck reports " + std::to_string((long) (VALGRIND_COUNT_ERRORS - e0)) + " uses of uninitialised or invalid memory", s.substr(0, 4000));
#endif
    if (OBS) { fprintf(OBS, "%ld %llu\n", idx, (unsigned long long) hashStr(s)); fflush(OBS); }
    if (const char* p = getenv("VF_OBS_TEXT")) writeFile(p, s);
    if (c.wantSample()) c.sample(s);
}
Property vf::PROPERTY("P36", 9000, 300000, run, "Default construction of every class (also in memory holding patterns), engines built, imported (also from mutated text), copied, changed, processed, exported, queried, benchmarked and restarted, and terms after failed configurations; everything observable is written down. Two builds whose heap and stack hold different patterns have to observe the same in every case, and a part of the cases runs under valgrind's memcheck.",
    {{"default-constructed objects looked at", 4000}, {"imports", 1000}, {"engines processed", 5000}, {"copies", 2000}, {"changes", 8000}, {"exports", 4000}, {"cases under memcheck", 300}, {"cases compared between memory patterns", 8900}}, false, 400, init);
