#include "model.hpp"
using namespace vf;
typedef std::vector<std::string> Toks;
static Toks split(const std::string& t) { Toks v; std::string w; for (char ch : t) { if (ch == '(' || ch == ')') { if (!w.empty()) v.push_back(w), w.clear(); v.push_back(std::string(1, ch)); } else if (isspace((unsigned char) ch)) { if (!w.empty()) v.push_back(w), w.clear(); } else w += ch; } if (!w.empty()) v.push_back(w); return v; }
static std::string glue(const Toks& t, Rng& r, bool odd) { std::string s; for (size_t i = 0; i < t.size(); ++i) { bool p = t[i] == "(" || (i && t[i - 1] == "(") || t[i] == ")" || (i && t[i - 1] == ")"); if (i) s += p && t[i - 1] != "if" && t[i] != "then" && r.coin() ? "" : odd ? pickS(r, {" ", "  ", "\t", " \n "}) : std::string(" "); s += t[i]; } return s; }
static std::string norm(const std::string& t) { std::istringstream i(t); std::string w, o; while (i >> w) o += (o.empty() ? "" : " ") + w; return o; }
static std::string diffTree(const EngineSpec& s, const fl::Engine* e, const EX& x, const fl::Expression* n, std::string& pre, std::string& post) {
    if (!n) return "a missing node";
    if (x->k != Expr::P) {
        if (n->type() != fl::Expression::Operator) return "a proposition where the text has an operator";
        const fl::Operator* o = static_cast<const fl::Operator*>(n); std::string want = x->k == Expr::And ? "and" : "or";
        if (o->name != want) return "operator " + o->name + " instead of " + want;
        pre += (pre.empty() ? "" : " ") + want; std::string d = diffTree(s, e, x->l, o->left, pre, post); if (d.empty()) d = diffTree(s, e, x->r, o->right, pre, post); post += " " + want; return d;
    }
    if (n->type() != fl::Expression::Proposition) return "an operator where the text has a proposition";
    const fl::Proposition* p = static_cast<const fl::Proposition*>(n); const fl::Variable* v = x->p.out ? (const fl::Variable*) e->getOutputVariable(x->p.var) : e->getInputVariable(x->p.var);
    if (p->variable != v) return "proposition about another variable than " + v->getName();
    if (p->hedges.size() != x->p.hedges.size()) return "wrong number of hedges on " + v->getName();
    for (size_t i = 0; i < p->hedges.size(); ++i) if (p->hedges[i]->name() != x->p.hedges[i]) return "hedge " + p->hedges[i]->name() + " instead of " + x->p.hedges[i];
    const fl::Term* t = x->p.term < 0 ? nullptr : v->getTerm(x->p.term);
    if (p->term != t) return "proposition about another term of " + v->getName();
    std::string txt = propText(s, x->p); if (norm(p->toString()) != txt) return "proposition printed '" + p->toString() + "' instead of '" + txt + "'";
    pre += (pre.empty() ? "" : " ") + txt; post += (post.empty() ? "" : " ") + txt; return "";
}
static void checkLoaded(Ctx& c, const EngineSpec& s, const fl::Engine* e, const RuleSpec& q, const fl::Rule* u, const std::string& text, double w, const std::string& how) {
    std::string d;
    if (!u->isLoaded()) d = "the rule is not loaded";
    else if (u->getWeight() != w) d = "weight " + num(u->getWeight()) + " instead of " + num(w);
    else if (u->getText() != text) d = "text '" + u->getText() + "'";
    else if (u->getActivationDegree() != 0 || u->isTriggered()) d = "a freshly loaded rule is active";
    else if (!u->isEnabled()) d = "a freshly loaded rule is disabled";
    else {
        std::string pre, post; d = diffTree(s, e, q.ante, u->getAntecedent()->getExpression(), pre, post);
        if (d.empty() && norm(u->getAntecedent()->toPrefix()) != pre) d = "prefix '" + u->getAntecedent()->toPrefix() + "' instead of '" + pre + "'";
        if (d.empty() && norm(u->getAntecedent()->toPostfix()) != post) d = "postfix '" + u->getAntecedent()->toPostfix() + "' instead of '" + post + "'";
        const std::vector<fl::Proposition*>& cs = u->getConsequent()->conclusions(); std::string ct;
        if (d.empty() && cs.size() != q.cons.size()) d = std::to_string(cs.size()) + " conclusions instead of " + std::to_string(q.cons.size());
        for (size_t i = 0; d.empty() && i < cs.size(); ++i) { EX x(new Expr); x->p = q.cons[i]; std::string a, b; d = diffTree(s, e, x, cs[i], a, b); if (!d.empty()) d = "conclusion: " + d; ct += (i ? " and " : "") + propText(s, q.cons[i]); }
        if (d.empty() && u->getConsequent()->toString() != ct) d = "consequent printed '" + u->getConsequent()->toString() + "' instead of '" + ct + "'";
        if (d.empty() && u->toString() != "rule: " + text) d = "rule printed '" + u->toString() + "'";
    }
    if (!d.empty()) c.violation("parts", "loading '" + text + "' (" + how + ") gives: " + d, specStr(s));
}
// does a text conform to the grammar? 1 yes, 0 no, -1 not specified (balanced but misplaced parentheses or connectives, any in a conclusion)
static bool isNumber(const std::string& w) { size_t i = 0, n = 0; if (w[i] == '-' || w[i] == '+') ++i; for (; i < w.size() && isdigit((unsigned char) w[i]); ++i) ++n; if (i < w.size() && w[i] == '.') for (++i; i < w.size() && isdigit((unsigned char) w[i]); ++i) ++n; if (!n) return false; if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) { if (++i < w.size() && (w[i] == '-' || w[i] == '+')) ++i; size_t z = i; while (i < w.size() && isdigit((unsigned char) w[i])) ++i; if (z == i) return false; } return i == w.size(); }
static bool isHedge(const std::string& w) { return w == "any" || w == "extremely" || w == "not" || w == "seldom" || w == "somewhat" || w == "very"; }
static bool isCon(const std::string& w) { return w == "and" || w == "or"; }
// a proposition in t from i on; any: it may end with any, and then has no term
static bool proposition(const EngineSpec& s, const Toks& t, size_t& i, bool outOnly, bool any) {
    const VarSpec* v = nullptr; if (i >= t.size()) return false; for (auto& x : s.out) if (x.name == t[i]) v = &x; if (!outOnly) for (auto& x : s.in) if (x.name == t[i]) v = &x;
    if (!v || ++i >= t.size() || t[i] != "is") return false; ++i;
    for (; i < t.size() && isHedge(t[i]); ++i) if (any && t[i] == "any") { ++i; return true; }
    if (i >= t.size()) return false;
    for (auto& x : v->terms) if (x.name == t[i]) { ++i; return true; }
    return false;
}
static bool infix(const EngineSpec& s, const Toks& t, size_t& i) {      // expression := operand {connective operand}; operand := proposition | ( expression )
    for (;;) {
        if (i < t.size() && t[i] == "(") { ++i; if (!infix(s, t, i) || i >= t.size() || t[i] != ")") return false; ++i; } else if (!proposition(s, t, i, false, true)) return false;
        if (i >= t.size() || !isCon(t[i])) return true;
        ++i;
    }
}
static int judge(const EngineSpec& s, const Toks& m) {
    if (m.empty() || m[0] != "if") return 0;
    size_t th = std::find(m.begin(), m.end(), "then") - m.begin(); if (th == m.size()) return 0;
    Toks a(m.begin() + 1, m.begin() + th), k, w; size_t wi = std::find(m.begin() + th, m.end(), "with") - m.begin(); k.assign(m.begin() + th + 1, m.begin() + wi); w.assign(m.begin() + wi, m.end());
    if (!w.empty() && (w.size() != 2 || !isNumber(w[1]))) return 0;
    int verdict = 1; size_t i = 0;
    for (;;) { if (!proposition(s, k, i, true, false)) return 0; if (i == k.size()) break; if (k[i++] != "and") return 0; }
    for (auto& x : k) if (x == "any") verdict = -1;
    Toks flat; long depth = 0, con = 0, props = 0; for (auto& x : a) { if (x == "(") ++depth; else if (x == ")") { if (--depth < 0) return 0; } else if (isCon(x)) ++con; else flat.push_back(x); }
    if (depth) return 0;
    for (i = 0; i < flat.size(); ++props) if (!proposition(s, flat, i, false, true)) return 0;
    if (!props || con != props - 1) return 0;
    i = 0; if (!infix(s, a, i) || i != a.size()) verdict = -1;
    return verdict;
}
static void run(Ctx& c, Rng& r, long) {
    GenOpts o; o.maxRules = 4; o.maxDepth = 5; o.nest = 0.5; o.any = 0.1; o.functions = false; o.outAnte = 0.2; o.disabled = 0;
    EngineSpec s = genEngine(r, o); std::unique_ptr<fl::Engine> e(buildApi(s, false));
    std::set<std::string> words; for (auto v : {&s.in, &s.out}) for (auto& x : *v) { words.insert(x.name); for (auto& t : x.terms) words.insert(t.name); }
    auto outNamed = [&](const std::string& n) -> const VarSpec* { for (auto& v : s.out) if (v.name == n) return &v; return nullptr; };
    auto varNamed = [&](const std::string& n) -> const VarSpec* { for (auto& v : s.in) if (v.name == n) return &v; return outNamed(n); };
    for (size_t b = 0; b < s.blocks.size(); ++b) for (size_t i = 0; i < s.blocks[b].rules.size(); ++i) {
        RuleSpec q = s.blocks[b].rules[i]; fl::Rule* u = e->getRuleBlock(b)->getRule(i);
        q.weight = 1.0; std::string body = ruleText(s, q, &r), w; double wv = 1.0;
        Toks t = split(body);
        if (r.coin()) { static const std::vector<std::pair<const char*, double> > W = {{"0.5", 0.5}, {"1.0", 1}, {"1", 1}, {".25", 0.25}, {"0.000", 0}, {"0.333", 0.333}, {"1e-1", 0.1}, {"2.5", 2.5}, {"0.125", 0.125}, {"-0.5", -0.5}, {"0", 0}}; auto p = r.pick(W); t.push_back("with"); t.push_back(p.first); wv = p.second; }
        std::string text = glue(t, r, r.coin()); if (r.chance(0.2)) text = " " + text; if (r.chance(0.2)) text += pickS(r, {" # comment", "# if then is", " #", " "});
        c.note(text + "\n" + specStr(s)); bool threw; std::string how = pickS(r, {"setText+load", "load(text)", "parse", "parse+addRule"}), ex;
        std::unique_ptr<fl::Rule> own;
        if (how == "setText+load") { u->setText(text); ex = caught([&]() { u->load(e.get()); }, &threw); }
        else if (how == "load(text)") ex = caught([&]() { u->load(text, e.get()); }, &threw);
        else { ex = caught([&]() { own.reset(fl::Rule::parse(text, e.get())); }, &threw); }
        if (threw) { c.violation("valid-rejected", "the valid rule '" + text + "' is rejected: " + ex, specStr(s)); continue; }
        checkLoaded(c, s, e.get(), q, own ? own.get() : u, text, wv, how); c.count("valid rules loaded"); c.distinct(text);
        if (own && !u->isLoaded()) u->load(text, e.get());
        if (r.chance(0.3)) {    // the same rule for another engine, and back
            std::unique_ptr<fl::Engine> twin(buildApi(s, false)); fl::Rule* z = own ? own.get() : u; int way = r.below(4); if (way == 1) z->unload();
            for (fl::Engine* to : {twin.get(), e.get()}) {
                ex = caught([&]() { if (way == 0) z->load(to); else if (way == 3 && z->isLoaded()) { std::string ta = z->getAntecedent()->getText(), tc = z->getConsequent()->getText(); z->getAntecedent()->load(ta, to); z->getConsequent()->load(tc, to); } else z->load(text, to); }, &threw); c.count("rules loaded for another engine");
                if (threw) { c.violation("valid-rejected", "the valid rule '" + text + "' is rejected by a twin of the engine: " + ex, specStr(s)); break; }
                checkLoaded(c, s, to, q, z, text, wv, "for another engine");
            }
        }
        // random edits of the words, judged by the grammar
        for (int f = 0; f < 5; ++f) {
            Toks m = t; static const std::vector<std::string> W = {"if", "then", "with", "is", "and", "or", "(", ")", "very", "not", "any", "somewhat", "0.5", "1.000", "nosuch"};
            std::vector<std::string> own2(words.begin(), words.end());
            for (int n = r.range(1, 4); n-- > 0 && !m.empty();) {
                size_t a = r.below((int) m.size()), b2 = r.below((int) m.size()); std::string w = r.coin() ? r.pick(W) : r.coin() ? r.pick(own2) : r.pick(t);
                switch (r.below(7)) {
                    case 0: m[a] = w; break; case 1: m.insert(m.begin() + a, w); break; case 2: m.erase(m.begin() + a); break; case 3: std::swap(m[a], m[b2]); break;
                    case 4: m.push_back(w); break;
                    case 5: { if (a > b2) std::swap(a, b2); Toks x(m.begin() + a, m.begin() + std::min(b2 + 1, a + 6)); m.insert(r.coin() ? m.end() : m.begin() + r.below((int) m.size() + 1), x.begin(), x.end()); break; }
                    default: { if (a > b2) std::swap(a, b2); m.erase(m.begin() + a, m.begin() + std::min(b2 + 1, a + 6)); }
                }
            }
            int want = judge(s, m); std::string txt = glue(m, r, r.chance(0.2)); if (split(txt) != m) continue;
            c.note("edited: " + txt + "\n" + specStr(s)); c.count(want == 1 ? "edited texts that conform" : want ? "edited texts that are not specified" : "edited texts that do not conform"); c.distinct(txt);
            std::unique_ptr<fl::Rule> o2; fl::Rule* z = u; std::string ex2; bool parse = r.coin(); if (parse) ex2 = caught([&]() { o2.reset(fl::Rule::parse(txt, e.get())); z = o2.get(); }, &threw); else ex2 = caught([&]() { u->load(txt, e.get()); }, &threw);
            if (want >= 0 && threw == (want == 1)) { c.violation(want ? "edit-rejected" : "edit-accepted", "the rule '" + txt + "', which " + (want ? "conforms to the grammar, is rejected: " + ex2 : "departs from the grammar, is accepted"), specStr(s)); continue; }
            if (!threw && !z->isLoaded()) c.violation("edit-unloaded", "the accepted rule '" + txt + "' is not loaded", specStr(s));
            if (threw && !parse && u->isLoaded()) c.violation("edit-loaded", "the rejected rule '" + txt + "' is loaded", specStr(s));
            if (want == 1) { Toks wt; size_t wi = std::find(m.begin(), m.end(), "with") - m.begin(); double v = wi < m.size() ? strtod(m[wi + 1].c_str(), nullptr) : 1.0; if (z->getWeight() != v) c.violation("edit-weight", "'" + txt + "' is loaded with weight " + num(z->getWeight()), specStr(s));
                if (norm(z->getConsequent()->toString()) != norm([&]() { std::string o; for (size_t y = std::find(m.begin(), m.end(), "then") - m.begin() + 1; y < wi; ++y) o += m[y] + " "; return o; }())) c.violation("edit-parts", "'" + txt + "' is loaded with the consequent '" + z->getConsequent()->toString() + "'", specStr(s)); }
        }
        caught([&]() { u->load(text, e.get()); });
        // single faults
        for (int f = 0; f < 6; ++f) {
            Toks m = t; std::string fault; size_t th = std::find(m.begin(), m.end(), "then") - m.begin(); std::vector<size_t> props, is, con, vars;
            for (size_t k = 0; k < m.size(); ++k) { if (m[k] == "is") is.push_back(k), vars.push_back(k - 1); if (m[k] == "and" || m[k] == "or") con.push_back(k); }
            size_t end = m.size() - (m.size() > 2 && m[m.size() - 2] == "with" ? 2 : 0);
            auto ins = [&](size_t k, const std::string& x) { m.insert(m.begin() + k, x); }; auto del = [&](size_t a, size_t z) { m.erase(m.begin() + a, m.begin() + z); };
            auto pend = [&](size_t v) { size_t k = v + 2; while (k < end && m[k] != "and" && m[k] != "or" && m[k] != ")" && m[k] != "then" && m[k] != "(") ++k; return k; };  // end of the proposition that starts at v
            switch (r.below(26)) {
                case 0: del(0, 1); fault = "missing if"; break;
                case 1: del(th, th + 1); fault = "missing then"; break;
                case 2: { size_t k = r.pick(is); del(k, k + 1); fault = "missing is"; break; }
                case 3: m[r.pick(vars)] = "nosuch"; fault = "unknown variable"; break;
                case 4: { size_t v = r.pick(vars), z = pend(v); if (m[z - 1] == "any") break; m[z - 1] = "nosuch"; fault = "unknown term"; break; }
                case 5: { size_t v = r.pick(vars); ins(v + 2, "nosuch"); fault = "unknown hedge"; break; }
                case 6: { std::vector<size_t> cv; for (size_t v : vars) if (v > th) cv.push_back(v); if (cv.empty()) break; size_t v = r.pick(cv); const VarSpec& x = s.in[r.below((int) s.in.size())]; size_t z = pend(v); m[v] = x.name; m[z - 1] = x.terms[r.below((int) x.terms.size())].name; fault = "conclusion about an input"; break; }
                case 7: { size_t v = r.pick(vars); size_t z = pend(v); del(v, z); fault = "missing operand"; break; }
                case 8: { if (con.empty()) break; size_t k = r.pick(con); del(k, k + 1); fault = "missing connective"; break; }
                case 9: { size_t k = r.range(1, (int) th); ins(k, r.coin() ? "(" : ")"); fault = "unbalanced parenthesis"; break; }
                case 10: { std::vector<size_t> ps; for (size_t k = 0; k < th; ++k) if (m[k] == "(" || m[k] == ")") ps.push_back(k); if (ps.empty()) break; size_t k = r.pick(ps); del(k, k + 1); fault = "unbalanced parenthesis"; break; }
                case 11: m.resize(end); m.push_back("with"); fault = "missing weight"; break;
                case 12: m.resize(end); m.push_back("with"); m.push_back(pickS(r, {"abc", "0.5x", "x0.5", "0,5", "--1", "1.0.0", "very", "0.5;"})); fault = "malformed weight"; break;
                case 13: m.resize(end); m.push_back("with"); m.push_back("0.5"); m.push_back(pickS(r, {"0.5", "with", "and", "x", "if"})); fault = "text after the weight"; break;
                case 14: { ins(0, "if"); fault = "repeated if"; break; }
                case 15: { ins(th, "then"); fault = "repeated then"; break; }
                case 16: { size_t k = r.pick(is); ins(k, "is"); fault = "repeated is"; break; }
                case 17: { if (con.empty()) break; size_t k = r.pick(con); ins(k, m[k]); fault = "repeated connective"; break; }
                case 18: del(1, th); fault = "empty antecedent"; break;
                case 19: m.resize(th + 1); fault = "empty consequent"; break;
                case 20: { m.resize(th + 1); m.push_back(s.out[0].name); m.push_back("is"); m.push_back("any"); fault = "conclusion without a term"; break; }
                case 21: { std::vector<size_t> cc; for (size_t k : con) if (k > th) cc.push_back(k); if (cc.empty()) break; m[r.pick(cc)] = "or"; fault = "or between conclusions"; break; }
                case 22: { ins(r.coin() ? th : end, "and"); fault = "trailing connective"; break; }
                case 23: { size_t v = r.pick(vars), z = pend(v); const VarSpec* x = varNamed(m[v]); std::string tn = s.in[0].terms[0].name; for (auto& tt : s.out[0].terms) { bool has = false; for (auto& z2 : x->terms) has = has || z2.name == tt.name; if (!has) tn = tt.name; } bool has = false; for (auto& z2 : x->terms) has = has || z2.name == tn; if (has || m[z - 1] == "any") break; m[z - 1] = tn; fault = "term of another variable"; break; }
                case 24: { size_t v = r.pick(vars), z = pend(v); ins(z, pickS(r, {"very", "not", "is"})); fault = "word after the term"; break; }
                default: { size_t k = r.pick(std::vector<size_t>{0, th, r.pick(is)}); m[k] = pickS(r, {"IF", "Then", "iss", "=>", "If", "THEN"}); fault = "misspelt keyword"; }
            }
            if (fault.empty()) continue;
            if (r.chance(0.03)) { m.clear(); fault = "empty text"; }
            std::string bad = glue(m, r, r.chance(0.2)); if (r.chance(0.1)) bad += " # then is and";
            c.note(fault + ": " + bad + "\n" + specStr(s)); c.count("fault: " + fault);
            int way = r.below(4); bool wasLoaded = u->isLoaded(); std::string ex2; std::unique_ptr<fl::Rule> o2;
            if (r.coin()) { u->setActivationDegree(0.7); u->setTriggered(true); }
            if (way == 0) ex2 = caught([&]() { o2.reset(fl::Rule::parse(bad, e.get())); }, &threw);
            else if (way == 1) { u->setText(bad); ex2 = caught([&]() { u->load(e.get()); }, &threw); }
            else if (way == 2) ex2 = caught([&]() { u->load(bad, e.get()); }, &threw);
            else { fl::RuleBlock rb; rb.addRule(u->clone()); rb.getRule(0)->setText(bad); ex2 = caught([&]() { rb.loadRules(e.get()); }, &threw); if (threw && rb.getRule(0)->isLoaded()) c.violation("loaded-after-failure", "after a failed loadRules the rule '" + bad + "' is loaded", specStr(s)); }
            if (!threw) { c.violation("accepted:" + fault, "the rule '" + bad + "' with " + fault + " is accepted", specStr(s)); continue; }
            if (ex2.compare(0, 3, "fl:") != 0 || ex2.size() < 8) c.violation("exception", "rejecting '" + bad + "' throws '" + ex2 + "' which is not a library exception with a message");
            if (way == 1 || way == 2) {
                if (u->isLoaded() || u->getAntecedent()->isLoaded() || u->getConsequent()->isLoaded()) c.violation("loaded-after-failure", "after '" + bad + "' (" + fault + ") was rejected the rule is" + (u->isLoaded() ? "" : " partly") + " loaded", specStr(s));
                if (u->isTriggered() || u->getActivationDegree() != 0) c.violation("active-after-failure", "after '" + bad + "' was rejected the rule is still active", specStr(s));
                for (size_t k = 0; k < s.in.size(); ++k) e->getInputVariable(k)->setValue(genInput(r, s.in[k], false));
                std::string pe = caught([&]() { e->process(); });
                if (!pe.empty()) c.violation("process-after-failure", "processing with a rejected rule fails: " + pe, specStr(s));
                if (u->isTriggered() || u->getActivationDegree() != 0) c.violation("fires", "the rejected rule '" + bad + "' fires", specStr(s));
                std::string again = caught([&]() { u->load(text, e.get()); });
                if (!again.empty()) c.violation("reload", "after a rejected text, '" + text + "' cannot be loaded: " + again, specStr(s)); else checkLoaded(c, s, e.get(), q, u, text, wv, "after a rejected text");
            } else if (wasLoaded && !u->isLoaded()) c.violation("other-rule", "rejecting a text unloads another rule", specStr(s));
            c.count("faulty rules rejected"); c.distinct(bad);
        }
    }
    if (c.wantSample() && !s.blocks[0].rules.empty()) c.sample(ruleText(s, s.blocks[0].rules[0], &r));
}
Property vf::PROPERTY("P06", 8000, 250000, run, "random rule texts over random engines, loaded by four routes and compared part by part with the tree that was printed; random edits of their words judged by a recogniser of the grammar; single-fault variants of each must be rejected, leave the rule unloaded and inert, and not prevent a later load; distinct counts texts",
    {{"valid rules loaded", 10000}, {"faulty rules rejected", 30000}, {"edited texts that conform", 1200}, {"edited texts that do not conform", 30000}});
