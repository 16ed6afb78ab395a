#include "code.hpp"
namespace vf {
using namespace fl;
struct Tok { char k; std::string s; };      // i identifier, n number, s string, p punctuation, e end
struct CodeError { std::string m; };
static std::vector<Tok> tokens(const std::string& c, Lang lang) {
    std::vector<Tok> v; size_t i = 0;
    while (i < c.size()) {
        char ch = c[i];
        if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r') { ++i; continue; }
        if (c.compare(i, 2, "//") == 0) { while (i < c.size() && c[i] != '\n') ++i; continue; }
        if (isalpha((unsigned char) ch) || ch == '_') { size_t j = i; while (j < c.size() && (isalnum((unsigned char) c[j]) || c[j] == '_')) ++j; v.push_back({'i', c.substr(i, j - i)}); i = j; continue; }
        if (isdigit((unsigned char) ch)) {
            size_t j = i; while (j < c.size() && isdigit((unsigned char) c[j])) ++j;
            if (j < c.size() && c[j] == '.') { ++j; while (j < c.size() && isdigit((unsigned char) c[j])) ++j; }
            if (j < c.size() && (c[j] == 'e' || c[j] == 'E')) { ++j; if (j < c.size() && (c[j] == '+' || c[j] == '-')) ++j; size_t k = j; while (j < c.size() && isdigit((unsigned char) c[j])) ++j; if (j == k) throw CodeError{"malformed number"}; }
            if (j < c.size() && (isalpha((unsigned char) c[j]) || c[j] == '_')) throw CodeError{"malformed number " + c.substr(i, j - i + 1)};
            v.push_back({'n', c.substr(i, j - i)}); i = j; continue;
        }
        if (ch == '"') {
            std::string s; size_t j = i + 1;
            for (;; ++j) {
                if (j >= c.size() || c[j] == '\n') throw CodeError{"unterminated string " + s};
                if (c[j] == '"') break;
                if (c[j] != '\\') { s += c[j]; continue; }
                char e = ++j < c.size() ? c[j] : 0;
                if (e == 'n') s += '\n'; else if (e == 't') s += '\t'; else if (e == '\\' || e == '"' || e == '\'') s += e; else throw CodeError{std::string("unknown escape \\") + e};
            }
            v.push_back({'s', s}); i = j + 1; continue;
        }
        if (lang != JAVA && (c.compare(i, 2, "->") == 0 || c.compare(i, 2, "::") == 0)) { v.push_back({'p', c.substr(i, 2)}); i += 2; continue; }
        if (strchr("(),;=-", ch) || (lang == JAVA ? ch == '.' : ch == '*')) { v.push_back({'p', std::string(1, ch)}); ++i; continue; }
        throw CodeError{std::string("unexpected character '") + ch + "'"};
    }
    v.push_back({'e', ""}); return v;
}
struct Val { enum K { Str, Num, Bool, Null, TermP, NormP, DefP, ActP, RuleP, InP, OutP, BlockP, EngP } k = Null; std::string s; double x = 0; bool integer = false, b = false; void* p = nullptr; };
struct Interp {
    Lang lang; std::vector<Tok> t; size_t i = 0; bool usingNs = false; long statements = 0;
    std::map<std::string, Val> vars; std::map<void*, std::function<void()> > pending; std::set<void*> added; std::vector<std::string>* names = nullptr;
    std::unique_ptr<Engine> engine;
    ~Interp() { for (auto& p : pending) p.second(); }
    template <typename T> T* own(T* p) { pending[p] = [p]() { delete p; }; return p; }
    template <typename T> T* adopt(void* p) { if (p && !pending.erase(p)) throw CodeError{"an object is used twice"}; return (T*) p; }
    const Tok& cur() const { return t[i]; }
    bool is(const std::string& s) const { return cur().k == 'p' && cur().s == s; }
    void eat(const std::string& s) { if (!is(s)) throw CodeError{"expected " + s + " before '" + cur().s + "'"}; ++i; }
    std::string id() { if (cur().k != 'i') throw CodeError{"expected a name before '" + cur().s + "'"}; return t[i++].s; }
    // a class name, with the namespace when the style demands it
    std::string cls() {
        std::string s = id();
        if (lang == CPP_PREFIX) { if (s != "fl" && s != "fuzzylite") throw CodeError{"class " + s + " without namespace"}; eat("::"); return id(); }
        if (lang == CPP && !usingNs) throw CodeError{"class " + s + " without namespace"};
        return s;
    }
    std::vector<Val> args() { std::vector<Val> a; eat("("); if (!is(")")) { a.push_back(expr()); while (is(",")) { ++i; a.push_back(expr()); } } eat(")"); return a; }
    static double d(const Val& v) { if (v.k != Val::Num) throw CodeError{"expected a number"}; return v.x; }
    static int n(const Val& v) { if (v.k != Val::Num || !v.integer) throw CodeError{"expected an integer"}; return (int) v.x; }
    static const std::string& s(const Val& v) { if (v.k != Val::Str) throw CodeError{"expected a string"}; return v.s; }
    static bool b(const Val& v) { if (v.k != Val::Bool) throw CodeError{"expected true or false"}; return v.b; }
    Val obj(Val::K k, void* p) { Val v; v.k = k; v.p = p; return v; }
    Val construct(const std::string& c, const std::vector<Val>& a) {
        auto argc = [&](size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw CodeError{c + " does not take " + std::to_string(a.size()) + " arguments"}; };
        auto h = [&](size_t k) { argc(k, k + 1); return a.size() > k ? d(a[k]) : 1.0; };
        auto term = [&](Term* x) { own(x); return obj(Val::TermP, x); };
        auto nm = [&]() { if (a.empty()) throw CodeError{c + " without name"}; return s(a[0]); };
        if (c == "Bell") { double z = h(4); return term(new Bell(nm(), d(a[1]), d(a[2]), d(a[3]), z)); }
        if (c == "Binary") { double z = h(3); return term(new Binary(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Concave") { double z = h(3); return term(new Concave(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Constant") { argc(2, 2); return term(new Constant(nm(), d(a[1]))); }
        if (c == "Cosine") { double z = h(3); return term(new Cosine(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Gaussian") { double z = h(3); return term(new Gaussian(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "GaussianProduct") { double z = h(5); return term(new GaussianProduct(nm(), d(a[1]), d(a[2]), d(a[3]), d(a[4]), z)); }
        if (c == "PiShape") { double z = h(5); return term(new PiShape(nm(), d(a[1]), d(a[2]), d(a[3]), d(a[4]), z)); }
        if (c == "Ramp") { double z = h(3); return term(new Ramp(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Rectangle") { double z = h(3); return term(new Rectangle(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Sigmoid") { double z = h(3); return term(new Sigmoid(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "SigmoidDifference") { double z = h(5); return term(new SigmoidDifference(nm(), d(a[1]), d(a[2]), d(a[3]), d(a[4]), z)); }
        if (c == "SigmoidProduct") { double z = h(5); return term(new SigmoidProduct(nm(), d(a[1]), d(a[2]), d(a[3]), d(a[4]), z)); }
        if (c == "Spike") { double z = h(3); return term(new Spike(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "SShape") { double z = h(3); return term(new SShape(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "ZShape") { double z = h(3); return term(new ZShape(nm(), d(a[1]), d(a[2]), z)); }
        if (c == "Trapezoid") { double z = h(5); return term(new Trapezoid(nm(), d(a[1]), d(a[2]), d(a[3]), d(a[4]), z)); }
        if (c == "Triangle") { double z = h(4); return term(new Triangle(nm(), d(a[1]), d(a[2]), d(a[3]), z)); }
        auto norm = [&](Norm* x) { own(x); argc(0, 0); return obj(Val::NormP, x); };
        if (FactoryManager::instance()->tnorm()->hasConstructor(c) && !c.empty()) return norm(FactoryManager::instance()->tnorm()->constructObject(c));
        if (FactoryManager::instance()->snorm()->hasConstructor(c) && !c.empty()) return norm(FactoryManager::instance()->snorm()->constructObject(c));
        auto def = [&](Defuzzifier* x) { own(x); return obj(Val::DefP, x); };
        if (isIntegral(c)) { argc(0, 1); IntegralDefuzzifier* x = (IntegralDefuzzifier*) FactoryManager::instance()->defuzzifier()->constructObject(c); Val v = def(x); if (!a.empty()) x->setResolution(n(a[0])); return v; }
        if (c == "WeightedAverage") { argc(1, 1); return def(new WeightedAverage(s(a[0]))); }
        if (c == "WeightedSum") { argc(1, 1); return def(new WeightedSum(s(a[0]))); }
        auto act = [&](Activation* x) { own(x); return obj(Val::ActP, x); };
        if (c == "General") { argc(0, 0); return act(new General); }
        if (c == "Proportional") { argc(0, 0); return act(new Proportional); }
        if (c == "First") { argc(2, 2); return act(new First(n(a[0]), d(a[1]))); }
        if (c == "Last") { argc(2, 2); return act(new Last(n(a[0]), d(a[1]))); }
        if (c == "Highest") { argc(1, 1); return act(new Highest(n(a[0]))); }
        if (c == "Lowest") { argc(1, 1); return act(new Lowest(n(a[0]))); }
        if (c == "Threshold") { argc(2, 2); return act(new Threshold(s(a[0]), d(a[1]))); }
        throw CodeError{"unknown class " + c};
    }
    Val call(const std::string& c, const std::string& m, std::vector<Val> a) {
        auto num = [&](size_t from) { std::vector<double> v; for (size_t k = from; k < a.size(); ++k) v.push_back(d(a[k])); return v; };
        if (c == "Discrete" && m == "create") {
            if (a.size() < 2) throw CodeError{"Discrete.create without points"};
            std::vector<double> v = num(lang == JAVA ? 1 : 2); double h = 1;
            if (lang != JAVA) { if (n(a[1]) != (int) v.size()) throw CodeError{"Discrete::create with the wrong number of arguments"}; for (size_t k = 2; k < a.size(); ++k) if (a[k].integer) throw CodeError{"an integer among variable arguments of type double"}; }
            if (v.size() < 2) throw CodeError{"Discrete.create without points"};
            if (v.size() % 2) { h = v.back(); v.pop_back(); }
            std::vector<Discrete::Pair> xy; for (size_t k = 0; k + 1 < v.size(); k += 2) xy.push_back(Discrete::Pair(v[k], v[k + 1]));
            return obj(Val::TermP, own((Term*) new Discrete(s(a[0]), xy, h)));
        }
        if (c == "Linear" && m == "create") {
            if (a.size() < 3 || a[1].k != Val::EngP) throw CodeError{"Linear.create without engine or coefficients"};
            std::vector<double> v = num(2);
            if (lang != JAVA) { if (v.size() != engine->numberOfInputVariables() + 1) throw CodeError{"Linear::create reads " + std::to_string(engine->numberOfInputVariables() + 1) + " coefficients but gets " + std::to_string(v.size())}; for (size_t k = 2; k < a.size(); ++k) if (a[k].integer) throw CodeError{"an integer among variable arguments of type double"}; }
            return obj(Val::TermP, own((Term*) new Linear(s(a[0]), v, engine.get())));
        }
        if (c == "Function" && m == "create") { if (a.size() != 3 || a[2].k != Val::EngP) throw CodeError{"Function.create with other arguments"}; return obj(Val::TermP, own((Term*) Function::create(s(a[0]), s(a[1]), engine.get()))); }
        if (c == "Rule" && m == "parse") { if (a.size() != 2 || a[1].k != Val::EngP) throw CodeError{"Rule.parse with other arguments"}; return obj(Val::RuleP, own(Rule::parse(s(a[0]), engine.get()))); }
        throw CodeError{"unknown function " + c + "." + m};
    }
    Val expr() {
        Val v; Tok k = cur();
        if (k.k == 's') { ++i; v.k = Val::Str; v.s = k.s; return v; }
        if (k.k == 'n') { ++i; v.k = Val::Num; v.x = atof(k.s.c_str()); v.integer = k.s.find_first_not_of("0123456789") == std::string::npos; if (v.integer && k.s.size() > 1 && k.s[0] == '0') throw CodeError{"octal literal"}; return v; }
        if (is("-")) { ++i; if (is("-")) throw CodeError{"decrement of a literal"}; v = expr(); d(v); v.x = -v.x; return v; }
        if (k.k != 'i') throw CodeError{"unexpected '" + k.s + "'"};
        if (k.s == "true" || k.s == "false") { ++i; v.k = Val::Bool; v.b = k.s == "true"; return v; }
        if (k.s == "new") { ++i; std::string c = cls(); std::vector<Val> a; if (is("(")) a = args(); else if (lang == JAVA) throw CodeError{"new " + c + " without ()"}; if (c == "Engine" || c == "RuleBlock" || c == "InputVariable" || c == "OutputVariable") { if (!a.empty()) throw CodeError{"new " + c + " with arguments"}; v.k = Val::Str; v.s = "new " + c; v.p = this; return v; } return construct(c, a); }
        if (lang == JAVA) {
            if (k.s == "null") { ++i; return v; }
            if (k.s == "Double") { ++i; eat("."); std::string m = id(); v.k = Val::Num; if (m == "NaN") v.x = NaN; else if (m == "POSITIVE_INFINITY") v.x = Inf; else if (m == "NEGATIVE_INFINITY") v.x = -Inf; else throw CodeError{"unknown Double." + m}; return v; }
        } else if (k.s == "fl" && t[i + 1].s == "::" && (t[i + 2].s == "null" || t[i + 2].s == "nan" || t[i + 2].s == "inf")) {
            i += 3; std::string m = t[i - 1].s; if (m == "null") return v; v.k = Val::Num; v.x = m == "nan" ? NaN : Inf; return v;
        }
        if (vars.count(k.s) && !(t[i + 1].k == 'p' && (t[i + 1].s == "." || t[i + 1].s == "::"))) { ++i; return vars[k.s]; }
        std::string c = cls(); eat(lang == JAVA ? "." : "::"); std::string m = id(); return call(c, m, args());
    }
    void declare(const std::string& c, const std::string& name, const Val& v) {
        if (v.s != "new " + c || v.p != this) throw CodeError{"declaration of " + name + " as " + c + " with another object"};
        static const std::set<std::string> kw = {"abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue", "default", "do", "double", "else", "enum", "extends", "final", "finally", "float", "for", "goto", "if", "implements", "import", "instanceof", "int", "interface", "long", "native", "new", "package", "private", "protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this", "throw", "throws", "transient", "try", "void", "volatile", "while", "true", "false", "null"};
        if (kw.count(name)) throw CodeError{"keyword as a name"};
        if (vars.count(name)) throw CodeError{"the variable " + name + " is declared twice"};
        Val x;
        if (c == "Engine") { if (engine.get()) throw CodeError{"two engines"}; engine.reset(new Engine); x = obj(Val::EngP, engine.get()); }
        else if (c == "InputVariable") x = obj(Val::InP, own(new InputVariable));
        else if (c == "OutputVariable") x = obj(Val::OutP, own(new OutputVariable));
        else if (c == "RuleBlock") x = obj(Val::BlockP, own(new RuleBlock));
        else throw CodeError{"unknown class " + c};
        vars[name] = x; if (names) names->push_back(name);
    }
    std::set<std::string> done;
    void invoke(const std::string& name, const std::string& m, const std::vector<Val>& a) {
        auto it = vars.find(name); if (it == vars.end()) throw CodeError{"the variable " + name + " is not declared"};
        Val& o = it->second; size_t want = m == "setRange" ? 2 : 1; if (a.size() != want) throw CodeError{m + " with " + std::to_string(a.size()) + " arguments"};
        if (added.count(o.p)) throw CodeError{"a statement about " + name + " after adding it"};
        bool adds = m.compare(0, 3, "add") == 0; if (!adds && !done.insert(name + "." + m).second) throw CodeError{m + " twice about " + name};
        auto norm = [&](const Val& v) { if (v.k != Val::Null && v.k != Val::NormP) throw CodeError{"expected a norm"}; return (Norm*) v.p; };
        if (o.k == Val::EngP) {
            if (m == "setName") engine->setName(s(a[0])); else if (m == "setDescription") engine->setDescription(s(a[0]));
            else if (m == "addInputVariable" && a[0].k == Val::InP) { added.insert(a[0].p); engine->addInputVariable(adopt<InputVariable>(a[0].p)); }
            else if (m == "addOutputVariable" && a[0].k == Val::OutP) { added.insert(a[0].p); engine->addOutputVariable(adopt<OutputVariable>(a[0].p)); }
            else if (m == "addRuleBlock" && a[0].k == Val::BlockP) { added.insert(a[0].p); engine->addRuleBlock(adopt<RuleBlock>(a[0].p)); }
            else throw CodeError{"unknown method " + m};
        } else if (o.k == Val::BlockP) {
            RuleBlock* q = (RuleBlock*) o.p;
            if (m == "setName") q->setName(s(a[0])); else if (m == "setDescription") q->setDescription(s(a[0])); else if (m == "setEnabled") q->setEnabled(b(a[0]));
            else if (m == "setConjunction" || m == "setImplication") { TNorm* x = dynamic_cast<TNorm*>(norm(a[0])); if (a[0].p && !x) throw CodeError{"expected a t-norm"}; if (x) adopt<Norm>(a[0].p); if (m[3] == 'C') q->setConjunction(x); else q->setImplication(x); }
            else if (m == "setDisjunction") { SNorm* x = dynamic_cast<SNorm*>(norm(a[0])); if (a[0].p && !x) throw CodeError{"expected an s-norm"}; if (x) adopt<Norm>(a[0].p); q->setDisjunction(x); }
            else if (m == "setActivation") { if (a[0].k != Val::Null && a[0].k != Val::ActP) throw CodeError{"expected an activation"}; q->setActivation(adopt<Activation>(a[0].p)); }
            else if (m == "addRule" && a[0].k == Val::RuleP) q->addRule(adopt<Rule>(a[0].p));
            else throw CodeError{"unknown method " + m};
        } else {
            Variable* v = o.k == Val::InP ? (Variable*) (InputVariable*) o.p : (Variable*) (OutputVariable*) o.p; OutputVariable* w = o.k == Val::OutP ? (OutputVariable*) o.p : nullptr;
            if (m == "setName") v->setName(s(a[0])); else if (m == "setDescription") v->setDescription(s(a[0])); else if (m == "setEnabled") v->setEnabled(b(a[0]));
            else if (m == "setRange") v->setRange(d(a[0]), d(a[1])); else if (m == "setLockValueInRange") v->setLockValueInRange(b(a[0]));
            else if (m == "addTerm" && a[0].k == Val::TermP) v->addTerm(adopt<Term>(a[0].p));
            else if (w && m == "setAggregation") { SNorm* x = dynamic_cast<SNorm*>(norm(a[0])); if (a[0].p && !x) throw CodeError{"expected an s-norm"}; if (x) adopt<Norm>(a[0].p); w->setAggregation(x); }
            else if (w && m == "setDefuzzifier") { if (a[0].k != Val::Null && a[0].k != Val::DefP) throw CodeError{"expected a defuzzifier"}; w->setDefuzzifier(adopt<Defuzzifier>(a[0].p)); }
            else if (w && m == "setDefaultValue") w->setDefaultValue(d(a[0])); else if (w && m == "setLockPreviousValue") w->setLockPreviousValue(b(a[0]));
            else throw CodeError{"unknown method " + m};
        }
    }
    void run() {
        while (cur().k != 'e') {
            if (lang == CPP && cur().s == "using") { ++i; if (id() != "namespace") throw CodeError{"using without namespace"}; if (id() != "fuzzylite") throw CodeError{"another namespace"}; eat(";"); usingNs = true; continue; }
            ++statements;
            bool callStmt = t[i].k == 'i' && t[i + 1].s == (lang == JAVA ? "." : "->");
            if (callStmt) { std::string name = id(); ++i; std::string m = id(); std::vector<Val> a = args(); eat(";"); invoke(name, m, a); }
            else { std::string c = cls(); if (lang != JAVA) eat("*"); std::string name = id(); eat("="); if (cur().s != "new") throw CodeError{"declaration without new"}; Val v = expr(); eat(";"); declare(c, name, v); }
        }
        if (!engine.get()) throw CodeError{"no engine"};
        if (!pending.empty()) throw CodeError{"an object that is constructed is not added to the engine"};
    }
};
std::unique_ptr<fl::Engine> interpret(const std::string& code, Lang lang, std::string& error, long& statements, std::vector<std::string>* names) {
    Interp in; in.lang = lang; in.names = names;
    try { in.t = tokens(code, lang); in.run(); statements += in.statements; return std::move(in.engine); }
    catch (CodeError& e) { error = e.m; }
    catch (std::exception& e) { error = e.what(); }
    std::string at; for (size_t k = in.i > 12 ? in.i - 12 : 0; k < in.t.size() && k < in.i + 3; ++k) at += in.t[k].s + " ";
    error += " at: " + at; return nullptr;
}
static std::string text(Rng& r) { static const char* w[] = {"the", "value: of", "a=b", "x,y", "(1 2)", "\"quoted\"", "'single'", "na\xc3\xafve", "%d", "\\n", "\\", "\"", "// no comment", "/* */", ";", "rule: if", "line\nbreak", "C:\\users\\x", "\\\"", "100.5"}; std::string s; for (int k = r.range(1, 5); k-- > 0;) s += std::string(s.empty() ? "" : " ") + w[r.below(20)]; return s; }
EngineSpec genCodeEngine(Rng& r, bool names) {
    GenOpts g; g.heavy = 0.03; g.large = 0.03; g.locks = 0.3; g.disabled = 0.12; g.infiniteRange = r.chance(0.3); g.maxRules = 6; EngineSpec s = genEngine(r, g);
    for (auto& b : s.blocks) for (auto& q : b.rules) q.enabled = true;       // code has no disabled rules
    if (r.chance(0.4)) { if (r.coin()) s.desc = text(r); if (r.coin()) s.name = text(r); for (auto& v : s.in) if (r.coin()) v.desc = text(r); for (auto& v : s.out) if (r.coin()) v.desc = text(r); for (auto& b : s.blocks) { if (r.coin()) b.desc = text(r); if (!names && r.coin()) b.name = text(r); } }
    if (names) { std::set<std::string> seen; for (auto& v : s.in) seen.insert(v.name); for (auto& v : s.out) seen.insert(v.name); for (auto& b : s.blocks) { while (!b.name.empty() && !seen.insert(b.name).second) b.name += "x"; } for (auto& b : s.blocks) if (!b.name.empty() && r.chance(0.2)) b.name += r.coin() ? " (rules)" : "-1"; std::set<std::string> u; for (auto& b : s.blocks) { std::string q; for (char ch : b.name) if (isalnum((unsigned char) ch) || ch == '_') q += ch; if (!q.empty() && !u.insert(q).second) b.name = ""; } }
    for (auto& v : s.out) for (auto& t : v.terms) if (t.cls == "Linear" && r.chance(0.3)) { t.p.clear(); for (int k = r.range(1, (int) s.in.size() + 3); k-- > 0;) t.p.push_back(r.dec(-2, 2)); }
    for (int o = 0; o < 2; ++o) for (auto& v : o ? s.out : s.in) for (auto& t : v.terms) if (r.chance(0.05) && t.cls != "Discrete" && t.cls != "Linear" && t.cls != "Function" && !t.p.empty()) t.p[r.below((int) t.p.size())] = r.coin() ? Inf : r.coin() || t.cls[0] == 'T' ? -Inf : NaN;
    if (r.chance(0.3)) {      // texts with quotes, backslashes and lines: names, formulas and rules
        static const char* q[] = {"\"", "\\", "\\n", "\"x\"", "'", "\\\\", "\\\"", "?"};
        for (auto& v : s.in) for (auto& t : v.terms) if (r.chance(0.3)) t.name += q[r.below(8)];
        for (auto& v : s.out) { if (!names && r.chance(0.3)) v.name += q[r.below(8)]; for (auto& t : v.terms) { if (r.chance(0.3)) t.name += q[r.below(8)]; if (t.cls == "Function" && r.coin()) t.formula = (r.coin() ? "\n" : "\t ") + t.formula; } }
        for (auto& b : s.blocks) for (auto& u : b.rules) {
            u.text = ruleText(s, u, nullptr);
            if (r.chance(0.3)) { size_t k = u.text.find(" then "); u.text.replace(k, 1, r.coin() ? "\n" : "\t"); }
            if (r.chance(0.4)) u.text += " # " + text(r);
        }
    }
    for (auto& b : s.blocks) if (r.chance(0.05)) b.thr = r.coin() ? NaN : r.coin() ? Inf : -Inf;
    if (r.chance(0.05)) s.blocks.clear();
    if (r.chance(0.1)) for (auto& v : s.out) if (r.coin()) { v.agg = ""; v.defuzz = ""; }
    if (r.chance(0.1)) for (auto& b : s.blocks) { if (r.coin()) b.conj = ""; if (r.coin()) b.disj = ""; if (r.coin()) b.impl = ""; if (r.coin()) b.act = ""; }
    return s;
}
}
