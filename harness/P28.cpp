#include "model.hpp"
using namespace vf;
typedef std::vector<std::string> SV;
static fl::TNorm* mk1() { return new fl::Minimum; }
static fl::TNorm* mk2() { return new fl::AlgebraicProduct; }
static fl::TNorm* mk3() { return new fl::BoundedDifference; }
static fl::TNorm* mk4() { return new fl::DrasticProduct; }
typedef fl::TNorm* (*TC)();
static const TC CT[] = {mk1, mk2, mk3, mk4, fl::null};
static const char* CN[] = {"Minimum", "AlgebraicProduct", "BoundedDifference", "DrasticProduct", ""};
static std::string key(Rng& r) { return pickS(r, {"", "a", "b", "Minimum", "minimum", "AlgebraicProduct", "x y", "zz", "K1", "K2", "sin", "+", "Triangle", "high"}); }

// a construction factory against an ordered map
static void construction(Ctx& c, Rng& r) {
    typedef std::map<std::string, int> M;
    std::vector<std::unique_ptr<fl::TNormFactory> > f; std::vector<M> m;
    f.emplace_back(new fl::TNormFactory); M m0; m0[""] = 4; std::vector<std::string> builtin(TNORMS, TNORMS + 7);
    for (auto& n : builtin) m0[n] = 10; m.push_back(m0);
    std::string hist;
    auto verify = [&](size_t i, const std::string& op) {
        SV keys; for (auto& p : m[i]) keys.push_back(p.first);
        if (f[i]->available() != keys) c.violation("available", "after" + hist + " the available keys are [" + fl::Op::join(f[i]->available(), "|") + "] instead of [" + fl::Op::join(keys, "|") + "]");
        if (f[i]->constructors().size() != keys.size()) c.violation("available", "the map of constructors has " + std::to_string(f[i]->constructors().size()) + " entries");
        SV probe = keys; probe.push_back("nokey"); probe.push_back(key(r)); probe.push_back(" ");
        for (auto& k : probe) {
            bool has = m[i].count(k) > 0; bool threw; std::unique_ptr<fl::TNorm> o; std::string e = caught([&]() { o.reset(f[i]->constructObject(k)); }, &threw);
            c.count("constructions");
            std::string want = has ? (m[i][k] == 10 ? k : CN[m[i][k]]) : "";
            if (f[i]->hasConstructor(k) != has) c.violation("has", "hasConstructor(" + k + ") is " + (has ? "false" : "true") + " after" + hist);
            if ((f[i]->getConstructor(k) != fl::null) != (has && !want.empty())) c.violation("get", "getConstructor(" + k + ") after" + hist);
            if (threw == has) c.violation("construct", std::string("constructObject(\"") + k + "\") " + (threw ? "throws" : "does not throw") + " after" + hist);
            else if (has && (o.get() ? o->className() : std::string()) != want) c.violation("construct", "constructObject(\"" + k + "\") gives " + (o.get() ? o->className() : "nothing") + " instead of " + want + " after" + hist);
            else if (threw && e.compare(0, 3, "fl:")) c.violation("exception-type", e);
        }
        (void) op;
    };
    int ops = r.range(3, 14);
    for (int k = 0; k < ops; ++k) {
        size_t i = r.below((int) f.size()); std::string q = key(r); int w = r.below(5);
        switch (r.below(6)) {
            case 0: case 1: case 2: f[i]->registerConstructor(q, CT[w]); m[i][q] = w; hist += " register(" + q + ")"; break;
            case 3: f[i]->deregisterConstructor(q); m[i].erase(q); hist += " deregister(" + q + ")"; break;
            case 4: if (f.size() < 4) { f.emplace_back(r.coin() ? f[i]->clone() : new fl::TNormFactory(*f[i])); m.push_back(m[i]); hist += " clone"; c.count("factories cloned"); } break;
            default: { size_t j = r.below((int) f.size()); *f[j] = *f[i]; m[j] = M(m[i]); hist += " assign"; } break;
        }
        c.count("factory operations");
    }
    c.distinct(hist);
    for (size_t i = 0; i < f.size(); ++i) verify(i, "");
}
// a cloning factory against an ordered map
static void cloning(Ctx& c, Rng& r) {
    typedef std::map<std::string, std::string> M;     // key -> name of the registered term; "-" for a null object
    typedef fl::CloningFactory<fl::Term*> F;
    std::vector<std::unique_ptr<F> > f; std::vector<M> m; f.emplace_back(new F("terms")); m.push_back(M());
    std::string hist; int serial = 0;
    int ops = r.range(3, 16);
    for (int k = 0; k < ops; ++k) {
        size_t i = r.below((int) f.size()); std::string q = key(r);
        switch (r.below(8)) {
            case 0: case 1: case 2: case 3: {
                bool null = r.chance(0.1); std::string n = "t" + std::to_string(++serial);
                fl::Term* t = null ? fl::null : (fl::Term*) new fl::Triangle(n, 0, 1, 2); f[i]->registerObject(q, t); m[i][q] = null ? "-" : n; hist += " register(" + q + ")";
                if (!null && f[i]->getObject(q) != t) c.violation("registered", "getObject(" + q + ") is not the registered object after" + hist);
                break; }
            case 4: f[i]->deregisterObject(q); m[i].erase(q); hist += " deregister(" + q + ")"; break;
            case 5: if (f.size() < 4) { f.emplace_back(r.coin() ? f[i]->clone() : new F(*f[i])); m.push_back(m[i]); hist += " clone"; c.count("factories cloned"); } break;
            case 6: { size_t j = r.below((int) f.size()); *f[j] = *f[i]; m[j] = M(m[i]); hist += " assign"; break; }
            default: if (r.chance(0.3)) { f[i]->clear(); m[i].clear(); hist += " clear"; }
                else if (f.size() > 1) { f.erase(f.begin() + i); m.erase(m.begin() + i); hist += " destroy"; } break;
        }
        c.count("factory operations");
    }
    c.distinct(hist);
    for (size_t i = 0; i < f.size(); ++i) {
        SV keys; for (auto& p : m[i]) keys.push_back(p.first);
        if (f[i]->available() != keys || f[i]->objects().size() != keys.size()) c.violation("available", "after" + hist + " the available objects are [" + fl::Op::join(f[i]->available(), "|") + "] instead of [" + fl::Op::join(keys, "|") + "]");
        if (f[i]->name() != "terms") c.violation("name", "the factory is called " + f[i]->name());
        SV probe = keys; probe.push_back("nokey"); probe.push_back(key(r));
        for (auto& k : probe) {
            bool has = m[i].count(k) > 0, threw; fl::Term* reg = f[i]->getObject(k); std::unique_ptr<fl::Term> o; std::string e = caught([&]() { o.reset(f[i]->cloneObject(k)); }, &threw);
            c.count("clonings");
            if (f[i]->hasObject(k) != has || threw == has) c.violation("has-object", "object " + k + " is " + (has ? "" : "not ") + "registered, but hasObject says " + (f[i]->hasObject(k) ? "true" : "false") + " and cloneObject " + (threw ? "throws" : "does not throw") + " after" + hist);
            std::string want = has ? m[i][k] : "-";
            if ((reg ? reg->getName() : std::string("-")) != want || (!threw && (o.get() ? o->getName() : std::string("-")) != want)) c.violation("clone-object", "object " + k + " is " + (reg ? reg->getName() : "-") + " and its clone " + (o.get() ? o->getName() : "-") + " instead of " + want + " after" + hist);
            if (o.get() && o.get() == reg) c.violation("clone-object", "cloneObject gives the registered object itself");
        }
    }
}
static void functions(Ctx& c, Rng& r) {
    // the function factory's operators and functions, and copies of it
    fl::FunctionFactory base; static const SV ops = {"!", "%", "*", "+", "-", "/", "^", "and", "or", "~"};
    static const SV fns = {"abs", "acos", "acosh", "asin", "asinh", "atan", "atan2", "atanh", "ceil", "cos", "cosh", "eq", "exp", "fabs", "floor", "fmod", "ge", "gt", "le", "log", "log10", "log1p", "lt", "max", "min", "neq", "pow", "round", "sin", "sinh", "sqrt", "tan", "tanh"};
    std::unique_ptr<fl::FunctionFactory> f(r.coin() ? base.clone() : new fl::FunctionFactory(base));
    if (r.coin()) { fl::FunctionFactory g; g = *f; *f = g; }
    if (f->availableOperators() != ops) c.violation("operators", "available operators are " + fl::Op::join(f->availableOperators(), " "));
    if (f->availableFunctions() != fns) c.violation("functions", "available functions are " + fl::Op::join(f->availableFunctions(), " "));
    for (int k = 0; k < 8; ++k) {
        std::string n = r.coin() ? r.pick(fns) : r.pick(ops);
        std::unique_ptr<fl::Function::Element> e(f->cloneObject(n));
        c.count("function elements");
        if (e->name != n || e->isOperator() != (std::find(ops.begin(), ops.end(), n) != ops.end()) || e->isFunction() == e->isOperator()) { c.violation("element", "element " + n + " is described as " + e->toString()); continue; }
        double x = r.real(-3, 3), y = r.real(-3, 3), want; Env env; FA a = e->arity == 1 ? fnode(e->isOperator() ? FormulaAst::Un : FormulaAst::F1, n, fnum(x)) : fnode(e->isOperator() ? FormulaAst::Bin : FormulaAst::F2, n, fnum(x), fnum(y));
        FEval st; try { want = feval(a, env, &st); } catch (std::exception&) { c.violation("element-arity", "element " + n + " has arity " + std::to_string(e->arity)); continue; }
        double got = e->arity == 1 ? e->unary(x) : e->binary(x, y);
        if ((e->unary != fl::null) != (e->arity == 1) || (e->binary != fl::null) != (e->arity == 2)) c.violation("element-arity", "element " + n + " has arity " + std::to_string(e->arity));
        if (!st.fragile && !close(got, want, 1e-12)) c.violation("element-value", "element " + n + " gives " + num(got) + " for " + num(x) + ", " + num(y) + " instead of " + num(want));
        if (e->precedence != (e->isOperator() ? prec(n) : 0) && e->isOperator()) { // relative order is what counts
            std::unique_ptr<fl::Function::Element> p(f->cloneObject("+")); bool lower = e->precedence < p->precedence, wantLower = prec(n) < prec("+");
            if (lower != wantLower) c.violation("element-precedence", "element " + n + " has precedence " + std::to_string(e->precedence));
        }
    }
    // registering a new function makes it available to formulas, deregistering removes it
    fl::FunctionFactory* g = fl::FactoryManager::instance()->function();
    struct H { static double twice(double v) { return 2 * v; } };
    std::string nm = "twice" + std::to_string(r.below(3));
    g->registerObject(nm, new fl::Function::Element(nm, "twice", fl::Function::Element::Function, &H::twice));
    double v = r.real(-5, 5); std::string e1 = caught([&]() { fl::Function h; h.load(nm + "(x) + 1"); if (!close(h.membership(v), 2 * v + 1, 1e-12)) c.violation("custom-function", "a registered function gives " + num(h.membership(v))); });
    if (!e1.empty()) c.violation("custom-function", "a registered function cannot be used: " + e1);
    g->deregisterObject(nm);
    bool threw; caught([&]() { fl::Function h; h.load(nm + "(x) + 1"); }, &threw);
    if (!threw) c.violation("custom-function", "a deregistered function can still be used");
    if (g->availableFunctions() != fns) c.violation("functions", "after deregistering, the available functions are " + fl::Op::join(g->availableFunctions(), " "));
}
template <typename F> static void keysAre(Ctx& c, const char* what, F* f, SV want) {
    want.push_back(""); std::sort(want.begin(), want.end());
    if (f->available() != want) c.violation(std::string("builtin:") + what, std::string("the available ") + what + " are " + fl::Op::join(f->available(), " ") + " instead of " + fl::Op::join(want, " "));
    auto o = f->constructObject(""); if (o) { c.violation(std::string("empty:") + what, "the empty key constructs an object"); delete o; }
    bool threw; caught([&]() { f->constructObject("NoSuchComponent"); }, &threw); if (!threw) c.violation(std::string("unknown:") + what, "an unknown key does not raise an exception");
}
static void builtin(Ctx& c, Rng& r) {
    fl::FactoryManager* fm = fl::FactoryManager::instance();
    std::unique_ptr<fl::FactoryManager> own; if (r.chance(0.3)) { own.reset(r.coin() ? fm->clone() : new fl::FactoryManager(*fm)); if (r.coin()) { fl::FactoryManager other; other = *own; *own = other; } fm = own.get(); }
    keysAre(c, "t-norms", fm->tnorm(), SV(TNORMS, TNORMS + 7)); keysAre(c, "s-norms", fm->snorm(), SV(SNORMS, SNORMS + 9)); keysAre(c, "hedges", fm->hedge(), SV(HEDGES, HEDGES + 6));
    SV terms(SHAPES, SHAPES + 18); terms.push_back("Discrete"); terms.push_back("Constant"); terms.push_back("Linear"); terms.push_back("Function"); std::sort(terms.begin(), terms.end()); terms.erase(std::unique(terms.begin(), terms.end()), terms.end());
    keysAre(c, "terms", fm->term(), terms);
    SV def = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum", "WeightedAverage", "WeightedSum"}; keysAre(c, "defuzzifiers", fm->defuzzifier(), def);
    SV act = {"First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"}; keysAre(c, "activations", fm->activation(), act);
    double a = r.unit(), b = r.unit();
    auto is = [&](const std::string& k, const std::string& cls) { c.count("components constructed"); if (k != cls) c.violation("class:" + k, "the component constructed as " + k + " is a " + cls); };
    for (int k = 0; k < 16; ++k) {
        std::string n = k < 7 ? TNORMS[k] : SNORMS[k - 7]; std::unique_ptr<fl::Norm> o(k < 7 ? (fl::Norm*) fm->tnorm()->constructObject(n) : (fl::Norm*) fm->snorm()->constructObject(n)), d;
        is(n, o->className()); d.reset(k < 7 ? (fl::Norm*) static_cast<fl::TNorm*>(o.get())->clone() : (fl::Norm*) static_cast<fl::SNorm*>(o.get())->clone()); is(n, d->className());
        if (!normBorderline(n, a, b) && (!close(o->compute(a, b), normDef(n, a, b), 1e-9) || !close(d->compute(a, b), normDef(n, a, b), 1e-9))) c.violation("behaves:" + n, n + "(" + num(a) + "," + num(b) + ") is " + num(o->compute(a, b)) + " and its clone gives " + num(d->compute(a, b)) + " instead of " + num(normDef(n, a, b)));
    }
    for (int k = 0; k < 6; ++k) { std::string n = HEDGES[k]; std::unique_ptr<fl::Hedge> o(fm->hedge()->constructObject(n)), d(o->clone()); is(n, o->name()); is(n, d->name()); if (!close(d->hedge(a), hedgeDef(n, a), 1e-9)) c.violation("behaves:" + n, n + "(" + num(a) + ")=" + num(d->hedge(a))); }
    for (auto& n : terms) {
        std::unique_ptr<fl::Term> o(fm->term()->constructObject(n)), d; is(n, o->className());
        if (n == "Linear") { std::string e = caught([&]() { fl::Engine g; g.addInputVariable(new fl::InputVariable("i")); g.getInputVariable(0)->setValue(3); o->updateReference(&g); o->configure("2 1"); d.reset(o->clone()); if (o->membership(0) != 7 || d->membership(0) != 7) c.violation("behaves:Linear", "Linear gives " + num(o->membership(0))); }); if (!e.empty()) c.violation("behaves:Linear", e); continue; }
        if (n == "Function") { o->configure("x * 2 + 1"); d.reset(o->clone()); if (o->membership(3) != 7 || d->membership(3) != 7) c.violation("behaves:Function", "Function gives " + num(o->membership(3))); continue; }
        TermSpec t = genShape(r, n, -1, 1, "t"); o->configure(paramText(t)); d.reset(o->clone()); is(n, d->className());
        for (int k = 0; k < 5; ++k) { double x = r.dec(-1.5, 1.5); if (!termAccept(t, x, o->membership(x)) || !same(o->membership(x), d->membership(x))) { c.violation("behaves:" + n, termStr(t) + " at " + num(x) + " gives " + num(o->membership(x)) + " and its clone " + num(d->membership(x))); break; } }
    }
    fl::Triangle tri("t", r.dec(-1, 0), 0.2, r.dec(0.5, 1), r.dec(0.3, 1)); 
    for (auto& n : def) {
        int res = r.range(10, 80); std::unique_ptr<fl::Defuzzifier> o(fm->defuzzifier()->constructObject(n)), d; is(n, o->className());
        if (auto i = dynamic_cast<fl::IntegralDefuzzifier*>(o.get())) {
            if (i->getResolution() != fl::IntegralDefuzzifier::defaultResolution()) c.violation("default-resolution", n + " has resolution " + std::to_string(i->getResolution()));
            o.reset(fm->defuzzifier()->constructDefuzzifier(n, res, fl::WeightedDefuzzifier::Automatic)); is(n, o->className()); d.reset(o->clone()); is(n, d->className());
            if (static_cast<fl::IntegralDefuzzifier*>(d.get())->getResolution() != res) c.violation("resolution", n + " constructed with resolution " + std::to_string(res) + " has " + std::to_string(static_cast<fl::IntegralDefuzzifier*>(d.get())->getResolution()));
            std::vector<double> xs = midpoints(-1, 1, res), ys; for (double x : xs) ys.push_back(tri.membership(x));
            Defuzz w = defuzzDef(n, xs, ys); double g1 = o->defuzzify(&tri, -1, 1), g2 = d->defuzzify(&tri, -1, 1);
            if (!w.skip && (g1 < w.lo - 1e-9 || g1 > w.hi + 1e-9 || !same(g1, g2))) c.violation("behaves:" + n, n + " gives " + num(g1) + ", its clone " + num(g2) + ", by definition " + num(w.lo) + ".." + num(w.hi));
        } else {
            fl::WeightedDefuzzifier::Type ty = r.coin() ? fl::WeightedDefuzzifier::TakagiSugeno : fl::WeightedDefuzzifier::Tsukamoto;
            o.reset(fm->defuzzifier()->constructDefuzzifier(n, res, ty)); is(n, o->className()); d.reset(o->clone()); is(n, d->className());
            if (static_cast<fl::WeightedDefuzzifier*>(d.get())->getType() != ty) c.violation("weighted-type", n + " lost its type");
            static_cast<fl::WeightedDefuzzifier*>(o.get())->setType(fl::WeightedDefuzzifier::TakagiSugeno);
            fl::Constant k1("k1", 3), k2("k2", -2); fl::Aggregated ag("g", -5, 5); fl::Minimum mn_; double w1 = 0.1 + a, w2 = 0.1 + b; ag.addTerm(&k1, w1, &mn_); ag.addTerm(&k2, w2, &mn_);
            double s = 3 * w1 - 2 * w2, want = n == "WeightedSum" ? s : s / (w1 + w2), got = o->defuzzify(&ag, -5, 5);
            if (!close(got, want, 1e-9)) c.violation("behaves:" + n, n + " gives " + num(got) + " instead of " + num(want));
        }
    }
    // activations: three rules with distinct degrees
    fl::Engine e; fl::InputVariable* in = new fl::InputVariable("in", 0, 1); e.addInputVariable(in); in->addTerm(new fl::Ramp("up", 0, 1)); in->setValue(1);
    fl::OutputVariable* out = new fl::OutputVariable("out", 0, 1); e.addOutputVariable(out); out->addTerm(new fl::Constant("k", 1)); out->setDefuzzifier(new fl::WeightedAverage);
    std::vector<double> deg = {0.3, 0.9, 0.6, 0.1}; r.shuffle(deg);
    for (auto& n : act) {
        std::unique_ptr<fl::Activation> o(fm->activation()->constructObject(n)), d; is(n, o->className());
        o->configure(n == "First" || n == "Last" ? "2 0.200" : n == "Highest" || n == "Lowest" ? "2" : n == "Threshold" ? ">= 0.500" : ""); d.reset(o->clone()); is(n, d->className());
        if (d->parameters() != o->parameters()) c.violation("behaves:" + n, n + " is configured with '" + o->parameters() + "' and its clone with '" + d->parameters() + "'");
        fl::RuleBlock rb; for (double x : deg) { rb.addRule(fl::Rule::parse("if in is up then out is k with " + dec3(x), &e)); }
        rb.setImplication(new fl::Minimum); rb.setActivation(d.release()); out->clear(); rb.activate();
        std::vector<int> ord = {0, 1, 2, 3}; std::sort(ord.begin(), ord.end(), [&](int i, int j) { return deg[i] < deg[j]; });
        std::set<int> w; double tot = 0; for (double x : deg) tot += x;
        if (n == "General" || n == "Proportional") w = {0, 1, 2, 3};
        if (n == "Lowest") { w.insert(ord[0]); w.insert(ord[1]); } if (n == "Highest") { w.insert(ord[3]); w.insert(ord[2]); }
        if (n == "Threshold") for (int i = 0; i < 4; ++i) if (deg[i] > 0.5) w.insert(i);
        if (n == "First") for (int i = 0; i < 4 && w.size() < 2; ++i) if (deg[i] > 0.2) w.insert(i);
        if (n == "Last") for (int i = 3; i >= 0 && w.size() < 2; --i) if (deg[i] > 0.2) w.insert(i);
        for (int i = 0; i < 4; ++i) {
            if (rb.getRule(i)->isTriggered() != (w.count(i) > 0)) { c.violation("behaves:" + n, n + "(" + rb.getActivation()->parameters() + ") over degrees " + vecStr(deg) + (w.count(i) ? " does not trigger" : " triggers") + " rule " + std::to_string(i)); break; }
            if (n == "Proportional" && !close(rb.getRule(i)->getActivationDegree(), deg[i] / tot, 1e-9)) { c.violation("behaves:" + n, "Proportional gives " + num(rb.getRule(i)->getActivationDegree())); break; }
        }
    }
    // a copied manager is independent of the one it was copied from
    fl::FactoryManager cp(*fl::FactoryManager::instance()); cp.tnorm()->deregisterConstructor("Minimum"); cp.function()->deregisterObject("sin"); cp.hedge()->registerConstructor("hmm", &fl::Not::constructor);
    if (!fl::FactoryManager::instance()->tnorm()->hasConstructor("Minimum") || !fl::FactoryManager::instance()->function()->hasObject("sin") || fl::FactoryManager::instance()->hedge()->hasConstructor("hmm")) c.violation("manager-copy", "changing a copied factory manager changes the original");
    if (cp.tnorm()->hasConstructor("Minimum") || !cp.hedge()->hasConstructor("hmm")) c.violation("manager-copy", "a copied factory manager cannot be changed");
    cp.setTnorm(new fl::TNormFactory); if (!cp.tnorm()->hasConstructor("Minimum")) c.violation("manager-set", "setting a factory has no effect");
    cp.setSnorm(fl::null); fl::FactoryManager cq(cp); if (cq.snorm()) c.violation("manager-copy", "copying a missing factory makes one");
}
static void run(Ctx& c, Rng& r, long idx) { construction(c, r); cloning(c, r); if (idx % 4 == 0) functions(c, r); if (idx % 6 == 0) builtin(c, r); if (c.wantSample()) c.sample("histories of registrations, deregistrations, clones, assignments and clears against ordered maps; every built-in component constructed, cloned and run"); }
Property vf::PROPERTY("P28", 6000, 200000, run, "random histories of factory operations against ordered maps, then every key and some unknown ones probed; every built-in component constructed, cloned and compared with its definition; distinct = distinct histories",
    {{"constructions", 20000}, {"clonings", 10000}, {"factories cloned", 1000}, {"components constructed", 10000}, {"function elements", 2000}});
