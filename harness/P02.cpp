#include "state.hpp"
#include "mutator.hpp"
using namespace vf;
static std::string first(const std::string& w) { return w.substr(0, w.find('\n')); }
static void msg(Ctx& c, const std::string& what, const std::string& w, const std::string& text) { c.count(what + " rejected"); if (w.size() <= 3) c.violation("no-message", what + " is rejected without a message", text); }
static std::string junk(Rng& r, const std::vector<std::string>& d) { std::string s; if (r.chance(0.7)) for (int k = r.range(0, 25); k-- > 0;) s += r.pick(d) + (r.chance(0.7) ? " " : ""); else for (int k = r.range(0, 60); k-- > 0;) s += r.chance(0.6) ? "if is then with and or()+-*/^,.#x1 ab"[r.below(37)] : (char) r.range(1, 255); return s; }
static std::string nest(Rng& r, const std::string& core, int depth) { std::string a, b; for (int k = 0; k < depth; ++k) { a += "("; b += ")"; if (r.chance(0.02)) b += " "; } return a + core + b; }
// ---------------------------------------------------------------- rules
static void useRule(Ctx& c, fl::Rule* u, fl::Engine* e, const std::string& text) {
    std::string p, q, s; caught([&]() { u->toString(); });
    if (!u->isLoaded()) return; c.count("rules used");
    if (!u->getAntecedent() || !u->getAntecedent()->getExpression() || !u->getConsequent() || u->getConsequent()->conclusions().empty()) { c.violation("rule:incomplete", "a loaded rule has no expression or no conclusion", text); return; }
    std::string w = caught([&]() { p = u->getAntecedent()->toPrefix(); q = u->getAntecedent()->toInfix(); s = u->getAntecedent()->toPostfix(); u->getAntecedent()->toString(); u->getConsequent()->toString(); }); if (!w.empty()) c.violation("rule:print", "a loaded rule cannot be printed: " + first(w), text);
    // every proposition names a variable of the engine and one of its terms (or ends with any)
    std::function<void(const fl::Expression*)> look = [&](const fl::Expression* x) { if (!x) return c.violation("rule:operand", "a loaded rule has an operator without operand", text); if (x->type() == fl::Expression::Operator) { auto o = static_cast<const fl::Operator*>(x); if (o->name != "and" && o->name != "or") c.violation("rule:operator", "a loaded rule has operator '" + o->name + "'", text); look(o->left); look(o->right); } else { auto z = static_cast<const fl::Proposition*>(x); bool in = false; for (auto v : e->variables()) if (v == z->variable) for (auto t : v->terms()) in = in || t == z->term; if (!in && !(z->variable && !z->hedges.empty() && z->hedges.back()->name() == "any")) c.violation("rule:proposition", "a loaded rule has a proposition about nothing", text); } };
    look(u->getAntecedent()->getExpression()); for (auto z : u->getConsequent()->conclusions()) { look(z); if (!dynamic_cast<fl::OutputVariable*>(z->variable)) c.violation("rule:conclusion", "a loaded rule concludes about something that is not an output", text); }
    fl::Minimum mn; fl::Maximum mx; fl::AlgebraicProduct ap; caught([&]() { u->activateWith(nullptr, nullptr); }); w = caught([&]() { u->activateWith(&mn, &mx); u->trigger(&ap); u->trigger(nullptr); }); if (!w.empty()) c.violation("rule:evaluate", "a loaded rule cannot be evaluated: " + first(w), text);
    for (auto o : e->outputVariables()) { caught([&]() { o->fuzzyOutputValue(); o->fuzzyOutput()->membership(0.3); }); o->fuzzyOutput()->clear(); }
    std::unique_ptr<fl::Rule> k(u->clone()); if (k->getText() != u->getText()) c.violation("rule:copy", "a copied rule has another text", text); std::string p2, w2 = caught([&]() { k->load(e); p2 = k->getAntecedent()->toPrefix(); }); if (!w2.empty() || p2 != p) c.violation("rule:copy", "the copy of a loaded rule " + (w2.empty() ? "is read as " + p2 + " instead of " + p : "cannot be loaded: " + first(w2)), text);
}
static void rules(Ctx& c, Rng& r) {
    GenOpts g; g.maxRules = 3; g.maxIn = 3; g.maxTerms = 3; g.maxRes = 10; g.functions = r.chance(0.2); EngineSpec q = genEngine(r, g); std::unique_ptr<fl::Engine> e(buildApi(q)); for (auto v : e->inputVariables()) v->setValue(r.real(-1, 1));
    std::vector<std::string> dict = RULE_DICT; std::vector<std::string> texts; for (auto v : e->variables()) { dict.push_back(v->getName()); dict.push_back(v->getName() + " is"); for (auto t : v->terms()) { dict.push_back(t->getName()); dict.push_back(v->getName() + " is " + t->getName()); dict.push_back(v->getName() + " is very not " + t->getName()); } } for (auto& b : q.blocks) for (auto& x : b.rules) texts.push_back(x.text); for (auto h : HEDGES) dict.push_back(h);
    if (texts.empty()) texts.push_back("if a is b then c is d"); std::string good; { bool k = false; for (auto& t : texts) { fl::Rule u; if (caught([&]() { u.load(t, e.get()); }).empty() && u.isLoaded()) { good = t; k = true; break; } } if (!k) good.clear(); }
    fl::Rule u; fl::Antecedent a; fl::Consequent z; std::string goodPrefix; if (!good.empty()) { fl::Rule f; f.load(good, e.get()); goodPrefix = f.getAntecedent()->toPrefix() + f.getConsequent()->toString(); }
    for (int k = 0; k < 8; ++k) {
        std::string t = r.pick(texts), o = r.pick(texts); int kind = r.below(10);
        if (kind < 6) t = mutateText(r, t, dict, o, r.coin() ? 1 : r.range(2, 8)); else if (kind == 6) t = junk(r, dict); else if (kind == 7) t = "if " + junk(r, dict) + " then " + junk(r, dict); else if (kind == 8) { size_t th = t.find(" then "); t = "if " + nest(r, t.substr(3, th - 3), r.range(1, r.chance(0.1) ? 1000 : 40)) + (r.coin() ? ")" : "") + t.substr(th); } else { size_t th = t.find(" then "); std::string ante = t.substr(3, th - 3), all = ante; for (int i = r.range(1, r.chance(0.1) ? 400 : 20); i-- > 0;) all += (r.coin() ? " and " : " or ") + ante; t = "if " + all + t.substr(th); }
        c.note(t); c.distinct(t); bool th; std::string w;
        switch (r.below(5)) {
            case 0: case 1: w = caught([&]() { u.load(t, e.get()); }, &th); if (th && u.isLoaded()) c.violation("rule:halfloaded", "a rule that could not be loaded counts as loaded: " + first(w), t); if (!th && !u.isLoaded()) c.violation("rule:unloaded", "a rule was loaded without failure but does not count as loaded", t); useRule(c, &u, e.get(), t); break;
            case 2: { std::unique_ptr<fl::Rule> p; w = caught([&]() { p.reset(fl::Rule::parse(t, e.get())); }, &th); if (!th && !p.get()) c.violation("rule:none", "parsing gives neither a rule nor a failure", t); if (p.get()) useRule(c, p.get(), e.get(), t); break; }
            case 3: { size_t x = t.find("then"); std::string s = r.coin() && x != std::string::npos && x > 3 ? t.substr(3, x - 3) : t; w = caught([&]() { a.load(s, e.get()); }, &th); caught([&]() { a.toString(); a.toPrefix(); a.toPostfix(); }); fl::Minimum mn; fl::Maximum mx; if (a.isLoaded()) caught([&]() { a.activationDegree(&mn, &mx); }); if (th && a.isLoaded()) c.violation("antecedent:halfloaded", "an antecedent that could not be loaded counts as loaded", s); if (!good.empty() && r.coin()) { std::string gt = good.substr(3, good.find(" then ") - 3), w3 = caught([&]() { a.load(gt, e.get()); }); if (!w3.empty()) c.violation("antecedent:after", "after a failure an antecedent cannot be loaded any more: " + first(w3), gt); } break; }
            default: { size_t x = t.find("then"); std::string s = r.coin() && x != std::string::npos ? t.substr(x + 4) : t; w = caught([&]() { z.load(s, e.get()); }, &th); caught([&]() { z.toString(); }); if (z.isLoaded()) { caught([&]() { z.modify(0.5, nullptr); }); for (auto y : e->outputVariables()) y->fuzzyOutput()->clear(); } if (th && z.isLoaded()) c.violation("consequent:halfloaded", "a consequent that could not be loaded counts as loaded", s); if (r.chance(0.2)) z.unload(); }
        }
        if (th) msg(c, "rules", w, t); else c.count("rules accepted");
        if (!good.empty() && r.chance(0.5)) { std::string w3, p; w3 = caught([&]() { u.load(good, e.get()); p = u.getAntecedent()->toPrefix() + u.getConsequent()->toString(); }); c.count("rules reloaded after others"); if (!w3.empty() || p != goodPrefix) c.violation("rule:after", "after reading '" + t + "' the rule '" + good + "' " + (w3.empty() ? "is read as " + p + " instead of " + goodPrefix : "cannot be loaded: " + first(w3)), good); if (u.getWeight() != 1.0 && good.find(" with ") == std::string::npos) c.violation("rule:weight", "a rule without weight has weight " + num(u.getWeight()) + " after '" + t + "' was read"); }
    }
    if (c.wantSample()) c.sample(u.getText());
}
// ---------------------------------------------------------------- formulas
static void useFunction(Ctx& c, Rng& r, fl::Function* f, const std::string& t) {
    std::string a, b; caught([&]() { f->toString(); f->parameters(); }); if (!f->isLoaded()) { bool th; caught([&]() { f->membership(0.3); }, &th); if (!th) c.violation("formula:unloaded", "a function that is not loaded can be evaluated", t); return; }
    c.count("formulas used"); std::string w = caught([&]() { a = f->root()->toInfix(); f->root()->toPrefix(); f->root()->toPostfix(); f->root()->toString(); f->root()->treeSize(); f->root()->treeSize(fl::Function::Element::Operator); }); if (!w.empty()) c.violation("formula:print", "a loaded formula cannot be printed: " + first(w), t);
    double y = NaN, z = NaN; bool t1, t2; double x = r.pick(std::vector<double>{0, 0.5, -1, NaN, Inf, 1e300, r.real(-3, 3)}); caught([&]() { y = f->membership(x); }, &t1); std::unique_ptr<fl::Function> k(f->clone()); fl::Function g("g"); g = *f; caught([&]() { z = k->membership(x); }, &t2); if (t1 != t2 || !same(y, z)) c.violation("formula:copy", "a copied function gives " + num(z) + " instead of " + num(y), t); caught([&]() { z = g.membership(x); }, &t2); if (t1 != t2 || !same(y, z)) c.violation("formula:assign", "an assigned function gives " + num(z) + " instead of " + num(y), t);
    std::map<std::string, fl::scalar> m; m["x"] = x; m["a"] = 1; caught([&]() { f->evaluate(m); f->evaluate(&m); f->evaluate(nullptr); f->evaluate(); });
    std::unique_ptr<fl::Function::Node> n(f->root()->clone()); if (n->toInfix() != a) c.violation("formula:clone", "a copied tree prints " + n->toInfix() + " instead of " + a, t);
}
static void formulas(Ctx& c, Rng& r) {
    GenOpts g; g.maxRules = 1; g.maxIn = 3; g.maxTerms = 2; g.maxRes = 10; EngineSpec q = genEngine(r, g); std::unique_ptr<fl::Engine> e(r.chance(0.6) ? buildApi(q) : nullptr); if (e) for (auto v : e->inputVariables()) v->setValue(r.real(-1, 1));
    std::vector<std::string> dict = FORMULA_DICT, vars = {"x"}; if (e) for (auto v : e->variables()) { dict.push_back(v->getName()); vars.push_back(v->getName()); } fl::Function f("f", "", e.get()); std::string good = "2*x+1"; bool was = false;
    for (int k = 0; k < 10; ++k) {
        std::string t; int kind = r.below(9); if (kind < 5) { static const char* S[] = {"sin(x)+1", "(x+1)*2^3", "max(x,0.5)-min(1,x)", "-x^2", "!x and x or 0.5", "pow(x,2)/3%4", "~(x*-2)", "gt(x,0) * (1 - le(x,1))", "atan2(x, fmod(x,3))", "round(exp(log(abs(x)+1)))"}; t = S[r.below(10)]; t = mutateText(r, t, dict, S[r.below(10)], r.coin() ? 1 : r.range(2, 7)); } else if (kind == 5) t = junk(r, dict); else if (kind == 6) t = nest(r, "x", r.range(1, r.chance(0.1) ? 1000 : 40)) + (r.coin() ? "+1" : ")"); else if (kind == 7) { t = "x"; for (int i = r.range(1, r.chance(0.1) ? 500 : 30); i-- > 0;) t += pickS(r, {"+", "-", "*", "^", " and ", "/"}) + (r.coin() ? "x" : "2"); } else { t = "x"; for (int i = r.range(1, r.chance(0.1) ? 300 : 20); i-- > 0;) t = pickS(r, {"-", "!", "~", "sin(", "abs("}) + t + (t.size() && r.chance(0.6) ? ")" : ""); }
        c.note(t); c.distinct(t); bool th; std::string w;
        switch (r.below(6)) {
            case 0: case 1: { w = caught([&]() { f.load(t); }, &th); if (f.getFormula() != t) c.violation("formula:text", "the formula is '" + f.getFormula() + "' after reading another one", t); if (f.isLoaded() && f.root()) { std::unique_ptr<fl::Function> own(new fl::Function("o")); std::unique_ptr<fl::Function::Node> n; std::string inf; bool t2; caught([&]() { n.reset(own->parse(t)); }, &t2); if (t2) c.violation("formula:stale", "a function that could not read its formula still evaluates " + f.root()->toInfix(), t); else if (n.get() && n->toInfix() != f.root()->toInfix()) c.violation("formula:other", "the function evaluates " + f.root()->toInfix() + " instead of " + n->toInfix(), t); } useFunction(c, r, &f, t); break; }
            case 2: { std::unique_ptr<fl::Function> p; w = caught([&]() { p.reset(fl::Function::create("p", t, e.get())); }, &th); if (!th && !p.get()) c.violation("formula:none", "neither a function nor a failure", t); if (p.get()) { useFunction(c, r, p.get(), t); if (!p->isLoaded()) c.violation("formula:created", "a created function is not loaded", t); } break; }
            case 3: { std::unique_ptr<fl::Function::Node> n; w = caught([&]() { n.reset(f.parse(t)); }, &th); if (!th && !n.get()) c.violation("formula:none", "parsing gives neither a tree nor a failure", t); if (n.get()) caught([&]() { n->toString(); n->evaluate(); }); break; }
            case 4: w = caught([&]() { f.space(t); std::string p = f.toPostfix(t); }, &th); break;
            default: w = caught([&]() { f.configure(t); }, &th); useFunction(c, r, &f, t); if (r.chance(0.3)) f.unload(); if (r.chance(0.3)) f.updateReference(e.get());
        }
        was = was || th; if (th) msg(c, "formulas", w, t); else c.count("formulas accepted");
        if (r.coin()) { w = caught([&]() { f.load(good); }); double y = NaN; if (w.empty()) y = f.membership(0.25); c.count("formulas reloaded after others"); if (!w.empty() || y != 1.5) c.violation("formula:after", "after reading '" + t + "' the formula " + good + " " + (w.empty() ? "gives " + num(y) : "cannot be loaded: " + first(w)), t); }
    }
    if (c.wantSample()) c.sample(f.getFormula());
}
// ---------------------------------------------------------------- parameters
static std::string params(Rng& r, const std::string& valid) { switch (r.below(8)) { case 0: case 1: { std::string s; for (int k = r.below(9); k-- > 0;) s += hostileNumber(r) + pickS(r, {" ", " ", " ", "  ", "\t", "\n"}); return s; } case 2: return junk(r, PARAM_DICT); case 3: { std::string s; for (int k = r.range(0, r.chance(0.1) ? 3000 : 30); k-- > 0;) s += num(r.dec(-5, 5)) + " "; return s; } default: return mutateText(r, valid, PARAM_DICT, valid, r.coin() ? 1 : r.range(2, 5)); } }
static std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }
static void terms(Ctx& c, Rng& r) {
    for (int k = 0; k < 10; ++k) {
        std::string cls = r.chance(0.85) ? SHAPES[r.below(18)] : pickS(r, {"Discrete", "Constant", "Linear", "Aggregated"}); std::unique_ptr<fl::Term> t, ref; std::string valid; if (cls == "Aggregated") { t.reset(r.coin() ? (fl::Term*) new fl::Aggregated("t", 0, 1) : new fl::Activated); }
        else { t.reset(fl::FactoryManager::instance()->term()->constructObject(cls)); TermSpec s; if (cls == "Linear") valid = "1.000 2.000"; else { s = genShape(r, cls, 0, 1, "t"); valid = paramText(s, 3); } }
        std::unique_ptr<fl::Engine> en; if (cls == "Linear" && r.coin()) { en.reset(new fl::Engine("e", "", {new fl::InputVariable("a", 0, 1)})); t->updateReference(en.get()); }
        for (int j = r.range(1, 3); j-- > 0;) {
            std::string p = params(r, valid); c.note(cls + " " + p); c.distinct(cls + " " + p); bool th; std::string w = caught([&]() { t->configure(p); }, &th); if (th) msg(c, "parameters", w, cls + " " + p); else c.count("parameters accepted");
            double xs[] = {-1, 0, 0.25, 0.5, 1, 2, NaN, Inf, -Inf, 1e308}; for (double x : xs) caught([&]() { t->membership(x); }); for (double y : {0.0, 0.3, 1.0, NaN}) caught([&]() { t->tsukamoto(y); }); t->isMonotonic(); std::string pr; caught([&]() { pr = t->parameters(); t->toString(); }); std::unique_ptr<fl::Term> k2(t->clone()); std::string q; caught([&]() { q = k2->parameters(); }); if (q != pr || k2->className() != t->className()) c.violation("term:copy", "a copy of " + cls + " has parameters " + q + " instead of " + pr, p);
            // the right number of plain numbers is accepted and read as such
            std::vector<std::string> ws = words(p); std::vector<double> vs; bool plain = !ws.empty() && p.find_first_not_of("0123456789.- ") == std::string::npos; for (auto& x : ws) { char* end; double v = strtod(x.c_str(), &end); bool dig = true; for (char ch : x) dig = dig && (isdigit((unsigned char) ch) || ch == '.' || ch == '-'); plain = plain && dig && *end == 0 && std::isfinite(v); vs.push_back(v); }
            if (cls != "Discrete" && cls != "Linear" && cls != "Constant" && cls != "Aggregated" && plain && words(valid).size() > 0 && ws.size() >= words(valid).size() - 1 && ws.size() > 4 && th) c.violation("term:rejected", cls + " rejects " + p + ": " + first(w));
            if (r.coin() && cls != "Aggregated") { std::string w3 = caught([&]() { t->configure(valid); }), a, b; ref.reset(fl::FactoryManager::instance()->term()->constructObject(cls)); caught([&]() { ref->configure(valid); }); if (words(valid).size() >= 2) { ref->setHeight(t->getHeight()); } a = t->parameters(); b = ref->parameters(); c.count("terms reconfigured after others"); if (!w3.empty() || a != b) c.violation("term:after", "after parameters '" + p + "', " + cls + " with " + valid + " " + (w3.empty() ? "has " + a + " instead of " + b : "fails: " + first(w3))); }
        }
    }
}
static void methods(Ctx& c, Rng& r) {
    for (int k = 0; k < 12; ++k) {
        std::string cls = pickS(r, {"First", "Last", "Highest", "Lowest", "Threshold", "Proportional", "General"}); std::unique_ptr<fl::Activation> a(fl::FactoryManager::instance()->activation()->constructObject(cls)); std::string valid = cls == "First" || cls == "Last" ? "2 0.500" : cls == "Threshold" ? pickS(r, {"> 0.500", ">= 0.250", "== 0.100", "< 0.300"}) : cls == "Highest" || cls == "Lowest" ? "3" : "";
        for (int j = r.range(1, 3); j-- > 0;) { std::string p = r.chance(0.2) ? pickS(r, {">", ">= ", "0.5", "> x", "=> 0.5", "!= 0.5 0.5", "1", "1 2 3", "x 0.5", "2147483648 0", "-5 0.1", "nan", "inf inf", "99999999999999999999"}) : params(r, valid); c.note(cls + " " + p); c.distinct(cls + " " + p); bool th; std::string w = caught([&]() { a->configure(p); }, &th); if (th) msg(c, "activation parameters", w, cls + " " + p); else c.count("activation parameters accepted"); std::string x = a->parameters(); a->toString(); std::unique_ptr<fl::Activation> z(a->clone()); if (z->parameters() != x) c.violation("activation:copy", "a copied method has parameters " + z->parameters() + " instead of " + x, p);
            fl::Engine e("e", "", {new fl::InputVariable("a", 0, 1, {new fl::Ramp("t", 0, 1)})}, {new fl::OutputVariable("o", 0, 1, {new fl::Ramp("t", 0, 1)})}); fl::RuleBlock* b = new fl::RuleBlock; e.addRuleBlock(b); b->setImplication(new fl::Minimum); for (int i = 0; i < 4; ++i) b->addRule(fl::Rule::parse("if a is t then o is t", &e)); b->setActivation(z.release()); e.getInputVariable(0)->setValue(r.unit()); std::string w4 = caught([&]() { b->activate(); }); if (!w4.empty()) c.violation("activation:use", cls + " with " + x + " cannot be used: " + first(w4), p);
            if (r.coin()) { std::string w3 = caught([&]() { a->configure(valid); }), y = a->parameters(); c.count("methods reconfigured after others"); if (!w3.empty() || (!valid.empty() && y != valid)) c.violation("activation:after", "after '" + p + "', " + cls + " with " + valid + " " + (w3.empty() ? "has " + y : "fails: " + first(w3))); } }
    }
    // sets of methods by name
    GenOpts g; g.maxRules = 2; g.maxIn = 1; g.maxRes = 10; EngineSpec q = genEngine(r, g); std::unique_ptr<fl::Engine> e(buildApi(q)); std::string n[6]; for (int i = 0; i < 6; ++i) n[i] = r.chance(0.9) ? (r.chance(0.15) ? "" : i == 0 || i == 2 ? TNORMS[r.below(7)] : i == 1 || i == 3 ? SNORMS[r.below(9)] : i == 4 ? pickS(r, {"Centroid", "Bisector", "WeightedAverage", "WeightedSum", "LargestOfMaximum"}) : pickS(r, {"General", "First", "Proportional", "Threshold"})) : r.coin() ? pickS(r, {"Minimum", "Maximum", "Centroid", "General", "none", "minimum"}) : junk(r, PARAM_DICT); std::string before = describe(e.get()); bool th; std::string w = caught([&]() { e->configure(n[0], n[1], n[2], n[3], n[4], n[5]); }, &th); if (th) { msg(c, "configurations", w, n[0]); if (describe(e.get()) != before) c.violation("configure:changes", "a failing configuration changes the engine: " + diffText(before, describe(e.get()))); } else c.count("configurations accepted"); caught([&]() { e->process(); }); e->toString();
    fl::Threshold t; std::string op = r.coin() ? pickS(r, {"<", "<=", "==", "!=", ">=", ">"}) : junk(r, PARAM_DICT); w = caught([&]() { t.setComparison(t.parseComparison(op)); }, &th); if (!th && t.comparisonOperator() != op) c.violation("comparison", "'" + op + "' is read as " + t.comparisonOperator()); c.count("comparisons");
}
// ---------------------------------------------------------------- numbers and strings
static void texts(Ctx& c, Rng& r) {
    for (int k = 0; k < 30; ++k) {
        std::string s = r.coin() ? hostileNumber(r) : r.coin() ? junk(r, PARAM_DICT) : num(r.real(-100, 100)); if (r.chance(0.2)) s = mutateText(r, s, PARAM_DICT, "1 2", 1); c.distinct(s); c.note(s);
        bool th, ok = false; double x = NaN, y = fl::Op::toScalar(s, -77.5, &ok); std::string w = caught([&]() { x = fl::Op::toScalar(s); }, &th); if (th == ok || (ok && !same(x, y)) || (!ok && y != -77.5) || fl::Op::isNumeric(s) != ok) c.violation("number:agree", "the conversions of '" + s + "' disagree: " + num(x) + " " + num(y)); c.count(ok ? "numbers accepted" : "numbers rejected"); if (th && w.size() <= 3) c.violation("no-message", "a number is rejected without a message", s);
        { char* end; double v = strtod(s.c_str(), &end); bool plain = !s.empty() && s.size() < 18; int dots = 0; for (size_t i = 0; i < s.size(); ++i) { plain = plain && (isdigit((unsigned char) s[i]) || (s[i] == '.' && i) || (s[i] == '-' && !i && s.size() > 1 && s[1] != '.')); dots += s[i] == '.'; } plain = plain && dots <= 1; if (plain && (!ok || !same(x, v))) c.violation("number:value", "'" + s + "' is read as " + num(x)); }
        int z = 0; caught([&]() { z = fl::Op::toInt(s); }, &th); (void) z; std::vector<double> vs; caught([&]() { vs = fl::Op::toScalars(s); }, &th); std::vector<double> v2 = fl::Op::toScalars(s, 5); if (!th) { if (vs.size() != v2.size()) c.violation("numbers", "the conversions of the list '" + s + "' disagree"); }
        std::string t = fl::Op::trim(s); if (!t.empty() && (isspace((unsigned char) t[0]) && t[0] == ' ')) c.violation("trim", "trimming leaves a blank"); std::string d = r.coin() ? " " : r.coin() ? "," : "ab"; std::vector<std::string> parts = fl::Op::split(s, d, false); if (fl::Op::join(parts, d) != s && !s.empty()) c.violation("split", "splitting '" + s + "' at '" + d + "' and joining gives '" + fl::Op::join(parts, d) + "'"); fl::Op::split(s, d, true); std::string rep = fl::Op::replaceAll(s, d, "@"); if (d != "@" && rep.find(d) != std::string::npos && d != "") c.violation("replace", "replacing leaves '" + d + "' in '" + rep + "'"); fl::Op::replaceFirst(s, d, "@@"); fl::Op::findReplace(s, d, d + d); std::string vn = fl::Op::validName(s); for (char ch : vn) if (!isalnum((unsigned char) ch) && ch != '_' && ch != '.') c.violation("validname", "'" + vn + "' is made a valid name"); if (!vn.empty() && fl::Op::validName(vn) != vn) c.violation("validname:twice", "'" + vn + "' is made a valid name and is not one");
        fl::Op::format(s, ::isalnum, "_"); fl::Op::str(x); c.count("strings");
    }
}
static void run(Ctx& c, Rng& r, long idx) { switch (idx % 8) { case 0: case 1: case 2: rules(c, r); break; case 3: case 4: formulas(c, r); break; case 5: terms(c, r); break; case 6: methods(c, r); break; default: texts(c, r); } }
Property vf::PROPERTY("P02", 16000, 1000000, run, "Valid rules, formulas, term and activation parameters, method names and numbers under structure-aware mutation, deep nesting and long operator chains, and texts of random keywords and bytes, read by the same objects again and again; whatever is accepted is checked for completeness, evaluated, printed and copied, whatever is rejected must leave the object able to read the next text; address, undefined-behaviour, leak and CPU-time monitors.",
    {{"rules accepted", 5000}, {"rules rejected", 10000}, {"rules used", 3000}, {"rules reloaded after others", 10000}, {"formulas accepted", 5000}, {"formulas rejected", 10000}, {"formulas used", 3000}, {"formulas reloaded after others", 10000}, {"parameters accepted", 5000}, {"parameters rejected", 5000}, {"activation parameters accepted", 5000}, {"activation parameters rejected", 3000}, {"numbers accepted", 5000}, {"numbers rejected", 5000}, {"configurations rejected", 400}, {"configurations accepted", 400}});
