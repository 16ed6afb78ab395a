#include "formula.hpp"
using namespace vf;
typedef std::vector<std::string> Toks;
static Toks toks(const std::string& s) { std::istringstream i(s); Toks t; std::string w; while (i >> w) t.push_back(w); return t; }
static bool isOp2(const std::string& t) { return t == "+" || t == "-" || t == "*" || t == "/" || t == "%" || t == "^" || t == "and" || t == "or"; }
static bool isUn(const std::string& t) { return t == "!" || t == "~"; }
static bool isF2(const std::string& t) { static const std::set<std::string> s = {"atan2", "fmod", "max", "min", "pow", "eq", "neq", "ge", "gt", "le", "lt"}; return s.count(t) > 0; }
static bool isF1(const std::string& t) { static const std::set<std::string> s = {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10", "round", "sin", "sinh", "sqrt", "tan", "tanh", "acosh", "asinh", "atanh", "log1p"}; return s.count(t) > 0; }
static FA leaf(const std::string& t) { char* e; double v = strtod(t.c_str(), &e); return *e == 0 ? fnum(v) : fvar(t); }
static FA fromPostfix(const std::string& s) {
    std::vector<FA> st;
    for (auto& t : toks(s)) {
        int ar = isUn(t) || isF1(t) ? 1 : isOp2(t) || isF2(t) ? 2 : 0;
        if ((int) st.size() < ar) throw std::runtime_error("postfix lacks operands");
        if (!ar) { st.push_back(leaf(t)); continue; }
        FA b = st.back(); st.pop_back(); FA a;
        if (ar == 2) { a = st.back(); st.pop_back(); }
        FormulaAst::K k = isUn(t) ? FormulaAst::Un : isOp2(t) ? FormulaAst::Bin : ar == 1 ? FormulaAst::F1 : FormulaAst::F2;
        st.push_back(ar == 2 ? fnode(k, t, a, b) : fnode(k, t, b));
    }
    if (st.size() != 1) throw std::runtime_error("postfix leaves several values");
    return st[0];
}
static FA prefixAt(const Toks& t, size_t& i) {
    if (i >= t.size()) throw std::runtime_error("prefix lacks operands");
    std::string w = t[i++]; int ar = isUn(w) || isF1(w) ? 1 : isOp2(w) || isF2(w) ? 2 : 0;
    if (!ar) return leaf(w);
    FA a = prefixAt(t, i), b; if (ar == 2) b = prefixAt(t, i);
    FormulaAst::K k = isUn(w) ? FormulaAst::Un : isOp2(w) ? FormulaAst::Bin : ar == 1 ? FormulaAst::F1 : FormulaAst::F2;
    return ar == 2 ? fnode(k, w, a, b) : fnode(k, w, a);
}
static int countK(const FA& a, bool op) { int n = op ? (a->k == FormulaAst::Un || a->k == FormulaAst::Bin) : (a->k == FormulaAst::F1 || a->k == FormulaAst::F2); for (auto& k : a->c) n += countK(k, op); return n; }
static bool sameTree(const FA& a, const FA& b) { if (a->k != b->k || a->s != b->s || !same(a->v, b->v) || a->c.size() != b->c.size()) return false; for (size_t i = 0; i < a->c.size(); ++i) if (!sameTree(a->c[i], b->c[i])) return false; return true; }
struct World { std::unique_ptr<fl::Engine> e; Env env; };
static void setVals(Rng& r, World& w) {
    auto v = [&]() { return r.chance(0.06) ? NaN : r.chance(0.05) ? Inf : r.chance(0.2) ? (double) r.range(-3, 3) : r.real(-10, 10); };
    for (auto x : w.e->inputVariables()) { double d = v(); x->setValue(d); w.env[x->getName()] = d; }
    for (auto x : w.e->outputVariables()) { double d = v(); x->setValue(d); w.env[x->getName()] = d; }
}
static World world(Rng& r, const std::vector<std::string>& in, const std::vector<std::string>& out) {
    World w; w.e.reset(new fl::Engine("w"));
    for (auto& n : in) w.e->addInputVariable(new fl::InputVariable(n));
    for (auto& n : out) w.e->addOutputVariable(new fl::OutputVariable(n));
    setVals(r, w); return w;
}
static void run(Ctx& c, Rng& r, long idx) {
    static const std::vector<std::string> pool = {"a", "b", "speed", "y1", "sinus", "maximum", "Temp_2", "e", "pi", "X", "and_1", "orb", "q.r", "absx"};
    std::vector<std::string> names = pool; r.shuffle(names);
    int ni = r.below(4), no = r.below(3), nu = r.below(4);
    std::vector<std::string> in(names.begin(), names.begin() + ni), out(names.begin() + ni, names.begin() + ni + no), user(names.begin() + ni + no, names.begin() + ni + no + nu), all = in;
    all.insert(all.end(), out.begin(), out.end()); std::vector<std::string> eng = all; all.insert(all.end(), user.begin(), user.end());
    eng.push_back("x"); all.push_back("x");
    if (ni && r.chance(0.1)) { in[r.below(ni)] = "x"; all.assign(in.begin(), in.end()); all.insert(all.end(), out.begin(), out.end()); eng = all; all.insert(all.end(), user.begin(), user.end()); c.count("formulas in engines that have a variable x"); }
    World w = world(r, in, out), w2 = world(r, in, out);
    int depth = idx % 50 == 0 ? 9 : r.range(0, 6);
    bool useUser = r.chance(0.5);
    FA ast = fgen(r, useUser ? all : eng, depth, false);
    if (fsize(ast) > 400) ast = fgen(r, eng, 4, false);
    if (r.chance(0.03)) { for (int i = 0; i < 60; ++i) ast = r.coin() ? fnode(FormulaAst::Un, r.coin() ? "~" : "!", ast) : fnode(FormulaAst::F1, "abs", ast); }   // deep chains
    std::string text = fprint(ast, &r); c.note(text);
    c.distinct(text); c.count("formulas"); c.count("formula nodes", fsize(ast));
    if (fsize(ast) >= 15) c.count("formulas with 15 or more elements");
    std::map<std::string, double> uv; for (auto& n : user) uv[n] = r.chance(0.05) ? NaN : r.real(-10, 10);
    Env base = w.env; for (auto& p : uv) base[p.first] = p.second;
    auto expect = [&](const Env& env, double x, bool& skip) { Env e = env; e["x"] = x; FEval st; double v = feval(ast, e, &st); skip = st.fragile; return v; };
    auto judge = [&](const char* key, double got, double want, bool skip, const std::string& how) {
        if (skip) { c.count("not judged (too close to call)"); return; }
        c.count("values judged"); if (want == want) c.count("finite or infinite values judged");
        if (!close(got, want, 1e-12)) c.violation(key, "\"" + text + "\" evaluates to " + num(got) + " instead of " + num(want) + " (" + how + ")");
    };
    auto envs = [&](const Env& e, double x) { std::string s = "x=" + num(x); for (auto& p : e) s += " " + p.first + "=" + num(p.second); return s; };
    bool skip; double x = r.real(-5, 5);
    std::unique_ptr<fl::Function> f;
    std::string ex = caught([&]() {
        if (useUser) f.reset(new fl::Function("f", text, uv, w.e.get(), true));
        else if (r.coin()) f.reset(fl::Function::create("f", text, w.e.get()));
        else { f.reset(new fl::Function("f", "", w.e.get())); f->configure(text); }
    });
    if (!ex.empty()) { c.violation("rejected", "\"" + text + "\" is rejected: " + ex); return; }
    if (!f->isLoaded() || f->getFormula() != text || f->parameters() != text) c.violation("accessors", "a loaded formula reports \"" + f->getFormula() + "\"");
    for (int k = 0; k < 3; ++k) {
        double want = expect(base, x, skip); judge("membership", f->membership(x), want, skip, envs(base, x));
        std::unique_ptr<fl::Function> cp(k == 0 ? f->clone() : k == 1 ? new fl::Function(*f) : new fl::Function("g", "1 + 2"));
        if (k == 2) { if (r.coin()) for (auto& n : user) if (r.coin()) cp->variables[n] = r.real(-10, 10); if (r.coin()) cp->variables["zz"] = 1.0; if (r.coin()) cp->load(); *cp = *f; if (cp->variables.size() != f->variables.size()) c.violation("assigned-variables", "an assigned formula has other variables"); }
        judge("copy", cp->membership(x), want, skip, "a copy");
        // a formula moved to another engine takes its variables from there
        if (k == 1) { cp->updateReference(w2.e.get()); Env b2 = w2.env; if (useUser) for (auto& n : user) b2[n] = base[n]; double w3 = expect(b2, x, skip); judge("other-engine", cp->membership(x), w3, skip, "updated to another engine: " + envs(b2, x)); want = expect(base, x, skip); judge("membership", f->membership(x), want, skip, "original after a copy moved"); }
        if (k == 2) { cp->load("7 * 2", fl::null); if (cp->membership(1) != 14) c.violation("reload", "7 * 2 evaluates to " + num(cp->membership(1))); judge("independent", f->membership(x), want, skip, "after its copy loaded another formula"); }
        setVals(r, w); for (auto& p : w.env) base[p.first] = p.second;
        for (auto& n : user) if (useUser) { base[n] = r.real(-3, 3); f->variables[n] = base[n]; }
        x = r.chance(0.1) ? NaN : r.real(-5, 5);
    }
    // evaluation over a map of all variables
    Env full; for (auto& n : all) full[n] = r.real(-4, 4);
    double wantF = expect(full, full["x"], skip);
    judge("evaluate", f->evaluate(full), wantF, skip, envs(full, full["x"]));
    judge("evaluate-node", f->root()->evaluate(&full), wantF, skip, envs(full, full["x"]));
    // notations
    std::string pf, pf2, pr;
    ex = caught([&]() {
        pf = f->toPostfix(text); pf2 = f->root()->toPostfix(); pr = f->root()->toPrefix();
        FA a = fromPostfix(pf), b = fromPostfix(pf2); size_t i = 0; Toks t = toks(pr); FA p = prefixAt(t, i);
        if (!sameTree(a, ast)) c.violation("postfix", "\"" + text + "\" has the postfix notation " + pf);
        if (!sameTree(b, ast)) c.violation("postfix-tree", "the tree of \"" + text + "\" has the postfix notation " + pf2);
        if (i != t.size() || !sameTree(p, ast)) c.violation("prefix-tree", "the tree of \"" + text + "\" has the prefix notation " + pr);
    });
    if (!ex.empty()) c.violation("notation", "the notations of \"" + text + "\" are malformed: " + ex + " | " + pf + " | " + pf2 + " | " + pr);
    int ops = countK(ast, true), fns = countK(ast, false);
    if ((int) f->root()->treeSize() != ops + fns || (int) f->root()->treeSize(fl::Function::Element::Operator) != ops || (int) f->root()->treeSize(fl::Function::Element::Function) != fns)
        c.violation("tree-size", "the tree of \"" + text + "\" has " + std::to_string(f->root()->treeSize()) + " elements instead of " + std::to_string(ops) + " operators and " + std::to_string(fns) + " functions");
    std::unique_ptr<fl::Function::Node> nd(f->root()->clone());
    judge("node-copy", nd->evaluate(&full), wantF, skip, "copied tree");
    // malformed variants are rejected, and the formula is usable afterwards
    std::string bad; int m = r.below(11);
    switch (m) {
        case 0: bad = text + ")"; break; case 1: bad = "(" + text; break; case 2: bad = text + " *"; break; case 3: bad = "/ " + text; break;
        case 4: bad = "(" + text + ") (" + text + ")"; break; case 5: bad = "(" + text + ") + undefinedVar"; break; case 6: bad = "pow(" + text + ")"; break;
        case 7: bad = "sin(" + text + ", 1)"; break; case 8: bad = "(" + text + ") 2"; break; case 9: bad = ""; break; default: bad = "max(" + text + ", )"; break;
    }
    c.count("malformed formulas");
    bool threw; ex = caught([&]() { f->load(bad); }, &threw);
    if (!threw) c.violation("malformed-accepted", "\"" + bad + "\" is accepted");
    else if (ex.compare(0, 3, "fl:")) c.violation("exception-type", ex);
    ex = caught([&]() { f->unload(); if (f->isLoaded()) c.violation("unload", "an unloaded formula reports being loaded"); bool t; caught([&]() { f->membership(0); }, &t); if (!t) c.violation("unload", "an unloaded formula evaluates"); f->variables = uv; f->load(text, w.e.get()); });
    if (!ex.empty()) c.violation("reload", "\"" + text + "\" cannot be loaded after a failure: " + ex);
    else { x = r.real(-5, 5); Env b = w.env; for (auto& p : uv) b[p.first] = p.second; double want = expect(b, x, skip); judge("reload", f->membership(x), want, skip, "loaded again after a failure"); }
    std::set<std::string> vs; fvars(ast, vs);
    if (vs.size() && (vs.size() > 1 || !vs.count("x"))) {
        std::unique_ptr<fl::Function::Node> root(f->root()->clone()); std::map<std::string, double> partial = full; std::string miss = *vs.begin() == "x" ? *vs.rbegin() : *vs.begin(); partial.erase(miss);
        bool t1, t2; double v1 = 0; caught([&]() { v1 = root->evaluate(&partial); }, &t1); caught([&]() { root->evaluate(fl::null); }, &t2);
        if (!t1 || !t2) c.violation("unknown-variable", "\"" + text + "\" evaluates without a value of " + miss + ": " + num(v1));
        c.count("missing variables reported");
    }
    if (c.wantSample()) c.sample(text + "  postfix: " + pf);
}
Property vf::PROPERTY("P26", 9000, 300000, run,
    "random expression trees over numbers, engine inputs and outputs, user variables and x, printed with varying spacing and redundant parentheses; evaluated by the library and by the tree; distinct = distinct texts",
    {{"formulas", 5000}, {"formulas with 15 or more elements", 500}, {"values judged", 20000}, {"finite or infinite values judged", 5000}, {"malformed formulas", 3000}, {"missing variables reported", 1000}});
