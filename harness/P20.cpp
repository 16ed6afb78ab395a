#include "state.hpp"
using namespace vf;
static const std::map<std::string, std::string> NORM = {{"Minimum", "min"}, {"AlgebraicProduct", "prod"}, {"BoundedDifference", "bounded_difference"}, {"DrasticProduct", "drastic_product"}, {"EinsteinProduct", "einstein_product"}, {"HamacherProduct", "hamacher_product"}, {"NilpotentMinimum", "nilpotent_minimum"},
    {"Maximum", "max"}, {"AlgebraicSum", "probor"}, {"BoundedSum", "bounded_sum"}, {"NormalizedSum", "normalized_sum"}, {"DrasticSum", "drastic_sum"}, {"EinsteinSum", "einstein_sum"}, {"HamacherSum", "hamacher_sum"}, {"NilpotentMaximum", "nilpotent_maximum"}, {"UnboundedSum", "sum"}};
static const std::map<std::string, std::string> DEF = {{"Centroid", "centroid"}, {"Bisector", "bisector"}, {"LargestOfMaximum", "lom"}, {"MeanOfMaximum", "mom"}, {"SmallestOfMaximum", "som"}, {"WeightedAverage", "wtaver"}, {"WeightedSum", "wtsum"}};
// name of the class and the order of the parameters in FIS
static std::string termFis(const TermSpec& t, int d) {
    auto n = [&](std::initializer_list<int> ix) { std::string s; for (int i : ix) s += (s.empty() ? "" : " ") + dec3(t.p[i], d); return s; };
    auto all = [&]() { std::string s; for (double x : t.p) s += (s.empty() ? "" : " ") + dec3(x, d); return s; };
    const std::string& c = t.cls;
    if (c == "Bell") return "'gbellmf',[" + n({1, 2, 0}) + "]";
    if (c == "Gaussian") return "'gaussmf',[" + n({1, 0}) + "]";
    if (c == "GaussianProduct") return "'gauss2mf',[" + n({1, 0, 3, 2}) + "]";
    if (c == "Sigmoid") return "'sigmf',[" + n({1, 0}) + "]";
    if (c == "SigmoidDifference") return "'dsigmf',[" + n({1, 0, 2, 3}) + "]";
    if (c == "SigmoidProduct") return "'psigmf',[" + n({1, 0, 2, 3}) + "]";
    if (c == "Function") return "'function',[" + t.formula + "]";
    static const std::map<std::string, std::string> m = {{"Binary", "binarymf"}, {"Concave", "concavemf"}, {"Constant", "constant"}, {"Cosine", "cosinemf"}, {"Discrete", "discretemf"}, {"Linear", "linear"}, {"PiShape", "pimf"}, {"Ramp", "rampmf"}, {"Rectangle", "rectmf"}, {"SShape", "smf"}, {"Spike", "spikemf"}, {"Trapezoid", "trapmf"}, {"Triangle", "trimf"}, {"ZShape", "zmf"}};
    return "'" + m.at(c) + "',[" + all() + "]";
}
// the code of a proposition: 0 none; false if there is none
static bool code(const Prop& p, std::string& s) {
    int neg = 0; std::vector<std::string> m; for (auto& h : p.hedges) if (h == "not") { if (!m.empty()) return false; ++neg; } else m.push_back(h);
    double f = 0; if (m.size() == 1) f = m[0] == "extremely" ? 0.3 : m[0] == "very" ? 0.2 : m[0] == "somewhat" ? 0.05 : m[0] == "seldom" ? 0.01 : 0.99; else if (m.size() == 2 && m[0] == "very" && m[1] == "very") f = 0.4; else if (!m.empty()) return false;
    if (neg > 1) return false;              // several negations are merged into one or none
    s = (neg ? "-" : "") + dec3(p.term + 1 + f, fl::fuzzylite::decimals()); return true;
}
static bool expressible(const Prop& p) { std::string s; return code(p, s); }
static std::string writeFis(Rng& r, const EngineSpec& s, int d, bool vary) {
    auto q = [&]() { return !vary || r.coin() ? "'" : ""; }; auto ws = [&]() { return vary && r.chance(0.2) ? " " : ""; }; auto junk = [&]() { return vary && r.chance(0.1) ? pickS(r, {"# comment\n", "\n", "% comment\n", "// comment\n"}) : std::string(); };
    const BlockSpec& b = s.blocks[0]; std::ostringstream f; std::string Q = q();
    f << "[System]\nName=" << Q << s.name << Q << "\nType='mamdani'\nVersion=2.0\nNumInputs=" << s.in.size() << "\nNumOutputs=" << s.out.size() << "\nNumRules=" << b.rules.size() << "\n";
    f << "AndMethod" << ws() << "=" << ws() << Q << NORM.at(b.conj) << Q << "\nOrMethod='" << NORM.at(b.disj) << "'\nImpMethod='" << NORM.at(b.impl) << "'\nAggMethod='" << NORM.at(s.out[0].agg) << "'\nDefuzzMethod='" << DEF.at(s.out[0].defuzz) << "'\n" << junk() << "\n";
    for (int o = 0; o < 2; ++o) for (size_t i = 0; i < (o ? s.out : s.in).size(); ++i) { const VarSpec& v = (o ? s.out : s.in)[i];
        f << (o ? "[Output" : "[Input") << i + 1 << "]\nName=" << ws() << Q << v.name << Q << "\nRange=[" << dec3(v.lo, d) << " " << dec3(v.hi, d) << "]\n" << junk() << "NumMFs=" << v.terms.size() << "\n";
        for (size_t k = 0; k < v.terms.size(); ++k) f << "MF" << k + 1 << "='" << v.terms[k].name << "':" << termFis(v.terms[k], d) << "\n" << junk();
        if (!v.enabled) f << "Enabled=0\n"; if (o && v.def == v.def) f << "Default=" << dec3(v.def, d) << "\n"; if (o && v.lockPrev) f << "LockPrevious=1\n"; if (o && v.lockRange) f << "LockRange=1\n";
        f << "\n"; }
    f << "[Rules]\n";
    for (auto& u : b.rules) {
        std::vector<Prop> ps; bool isOr = false; std::function<void(const EX&)> go = [&](const EX& x) { if (x->k == Expr::P) { ps.push_back(x->p); return; } isOr = x->k == Expr::Or; go(x->l); go(x->r); }; go(u.ante);
        for (size_t i = 0; i < s.in.size(); ++i) { std::string c = dec3(0, d); for (auto& p : ps) if (p.var == (int) i) code(p, c); f << c << " "; }
        f << ", "; for (size_t i = 0; i < s.out.size(); ++i) { std::string c = dec3(0, d); for (auto& p : u.cons) if (p.var == (int) i) code(p, c); f << c << " "; }
        f << "(" << dec3(u.weight, d) << ") : " << (isOr ? 2 : 1) << "\n" << junk();
    }
    return f.str();
}
static std::string canon(const std::string& s) { std::string o, l; std::istringstream i(s); while (std::getline(i, l)) { if (l.empty() || l[0] == '#' || l.compare(0, 8, "Version=") == 0 || l.compare(0, 5, "Type=") == 0) continue; std::istringstream w(l); std::string t; while (w >> t) o += t + " "; o += "\n"; } return o; }
static std::string outs(fl::Engine* e, const std::vector<double>& x) {
    for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]);
    bool threw; caught([&]() { e->process(); }, &threw); if (threw) return "fails";
    std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + "\n"; return s;
}
static EX chain(const std::vector<Prop>& ps, Expr::K k) { EX x; for (auto& p : ps) { EX l(new Expr); l->p = p; if (!x) x = l; else { EX n(new Expr); n->k = k; n->l = x; n->r = l; x = n; } } return x; }
static EX shape(Rng& r, std::vector<Prop> ps, Expr::K k) { if (ps.size() == 1) { EX l(new Expr); l->p = ps[0]; return l; } int m = r.range(1, (int) ps.size() - 1); EX n(new Expr); n->k = k; n->l = shape(r, std::vector<Prop>(ps.begin(), ps.begin() + m), k); n->r = shape(r, std::vector<Prop>(ps.begin() + m, ps.end()), k); return n; }
static Prop prop(Rng& r, const EngineSpec& s, bool out, int var, bool ok) {
    Prop p; p.out = out; p.var = var; p.term = r.below((int) (out ? s.out : s.in)[var].terms.size());
    do { p.hedges.clear(); if (r.chance(ok ? 0.4 : 1)) for (int k = r.range(1, 3); k-- > 0;) p.hedges.push_back(pickS(r, {"extremely", "not", "seldom", "somewhat", "very", "very"})); } while (expressible(p) != ok && !(p.hedges.size() > 1 && std::count(p.hedges.begin(), p.hedges.end(), "not") == (long) p.hedges.size() && false));
    if (ok && !out && r.chance(0.06)) { p.term = -1; p.hedges.assign(r.coin() ? 1 : 0, "not"); p.hedges.push_back("any"); }
    return p;
}
static void run(Ctx& c, Rng& r, long) {
    int d = r.chance(0.6) ? 3 : r.range(3, 8); int od = r.chance(0.6) ? d : r.below(10); fl::fuzzylite::setDecimals(d);
    GenOpts g; g.heavy = 0.04; g.large = 0.02; g.locks = 0; g.disabled = 0; g.descriptions = false; g.heights = false; g.activations = false; g.customDefaults = false; g.maxIn = 5; g.outAnte = 0; g.infiniteRange = r.chance(0.1);
    EngineSpec s = genEngine(r, g);
    for (auto& v : s.out) { v.agg = s.out[0].agg.empty() ? "Maximum" : s.out[0].agg; v.defuzz = s.out[0].defuzz; v.res = fl::IntegralDefuzzifier::defaultResolution(); v.wtype = "Automatic"; for (auto& t : v.terms) if (t.cls == "Function" && t.formula.find_first_of(",:=[]'") != std::string::npos) { t = TermSpec(); t.cls = "Constant"; t.name = v.terms[0].name + "_c"; t.p = {r.dec(-5, 5)}; } }
    // names of terms stay unique
    for (auto& v : s.out) { std::set<std::string> n; for (auto& t : v.terms) while (!n.insert(t.name).second) t.name += "_b"; }
    s.blocks.resize(1); BlockSpec& b = s.blocks[0]; b.rules.clear(); int nr = r.range(0, 8);
    std::vector<RuleSpec> given;             // the same rules, with propositions in any order and grouping
    for (int k = 0; k < nr; ++k) {
        RuleSpec u, w; std::vector<Prop> ps; Expr::K op = r.coin() ? Expr::And : Expr::Or;
        for (size_t i = 0; i < s.in.size(); ++i) if (r.chance(0.6)) ps.push_back(prop(r, s, false, (int) i, true));
        if (ps.empty()) ps.push_back(prop(r, s, false, r.below((int) s.in.size()), true));
        for (size_t i = 0; i < s.out.size(); ++i) if (r.chance(0.6)) u.cons.push_back(prop(r, s, true, (int) i, true));
        if (u.cons.empty()) u.cons.push_back(prop(r, s, true, r.below((int) s.out.size()), true));
        if (r.chance(0.3)) u.weight = r.dec(0, r.chance(0.2) ? 3 : 1);
        w = u; u.ante = chain(ps, op); r.shuffle(ps); w.ante = shape(r, ps, op); r.shuffle(w.cons);
        u.text = ruleText(s, u); if (u.weight != 1.0) u.text = u.text.substr(0, u.text.rfind(' ') + 1) + dec3(u.weight, d); w.text = ruleText(s, w); b.rules.push_back(u); given.push_back(w);
    }
    EngineSpec t = s; t.blocks.clear(); { size_t i = 0; int nb = r.chance(0.6) ? 1 : r.range(1, 3); for (int k = 0; k < nb; ++k) { BlockSpec x = b; x.rules.clear(); x.name = "block" + std::to_string(k); size_t n = k + 1 == nb ? given.size() - i : (size_t) r.below((int) (given.size() - i) + 1); for (; n-- > 0; ++i) x.rules.push_back(given[i]); t.blocks.push_back(x); } }
    // rules that are not loaded are left out
    if (!b.rules.empty() && r.chance(0.15)) for (int k = r.range(1, 2); k-- > 0;) { BlockSpec& x = t.blocks[r.below((int) t.blocks.size())]; RuleSpec u = given[r.below((int) given.size())]; u.loaded = false; x.rules.insert(x.rules.begin() + r.below((int) x.rules.size() + 1), u); c.count("rules not loaded"); }
    std::unique_ptr<fl::Engine> want(buildApi(s)), a(buildApi(t)), e; fl::FisExporter ex; fl::FisImporter im; c.note(specStr(t));
    int mode = r.below(10); CmpOpts o; o.descriptions = false;
    for (auto x : want->ruleBlocks()) x->setName("");
    if (mode < 6) {
        for (auto x : a->ruleBlocks()) for (auto u : x->rules()) if (!u->isLoaded()) { bool threw; std::string why = caught([&]() { ex.exportRule(u, a.get()); }, &threw); if (!threw || why.compare(0, 3, "fl:") != 0) c.violation("not loaded", "a rule that is not loaded is exported: " + u->getText(), why); }
        std::string fis, why = caught([&]() { fis = ex.toString(a.get()); }); c.count("engines exported"); c.distinct(fis);
        if (fis.empty()) { c.violation("export", "an engine that FIS can express is not exported: " + why.substr(0, 200), specStr(t)); return; }
        std::string mine = writeFis(r, s, d, false); if (canon(mine) != canon(fis)) { c.violation("export", "the exported text is not the description of the engine: " + diffText(canon(mine), canon(fis)), fis + "\n--\n" + specStr(t)); return; }
        if (r.chance(0.1)) { std::string p = scratchDir() + "/e.fis"; ex.toFile(p, a.get()); why = caught([&]() { Decimals z(od); e.reset(im.fromFile(p)); }); } else why = caught([&]() { Decimals z(od); e.reset(im.fromString(fis)); });
        if (!e.get()) { c.violation("import", "the exported text is not imported: " + why.substr(0, 200), fis); return; }
        std::string df = diffEngines(want.get(), e.get(), o); if (!df.empty()) { c.violation("round-trip", "the imported engine differs: " + df, fis + "\n--\n" + specStr(t)); return; }
        std::string f2; caught([&]() { f2 = ex.toString(e.get()); }); if (canon(f2) != canon(fis)) { c.violation("fixpoint", "exporting the imported engine gives another text: " + diffText(canon(fis), canon(f2)), fis); return; }
        std::unique_ptr<fl::Engine> e2; caught([&]() { Decimals z(od); e2.reset(im.fromString(f2)); }); std::string f3; if (e2.get()) caught([&]() { f3 = ex.toString(e2.get()); }); if (f3 != f2) { c.violation("fixpoint", "exporting repeatedly gives other texts: " + diffText(f2, f3), fis); return; }
        c.count("round trips"); c.count("rules round-tripped", (long) b.rules.size());
    } else if (mode < 9) {
        // an independently written text, with the optional keys of the importer
        for (auto& v : s.in) v.enabled = !r.chance(0.15); for (auto& v : s.out) { v.enabled = !r.chance(0.15); if (r.chance(0.4)) v.def = r.dec(v.lo, v.hi); v.lockPrev = r.chance(0.3); v.lockRange = r.chance(0.3); }
        want.reset(buildApi(s)); for (auto x : want->ruleBlocks()) x->setName("");
        std::string mine = writeFis(r, s, d, true), why = caught([&]() { Decimals z(od); e.reset(im.fromString(mine)); }); c.count("independently written texts"); c.distinct(mine);
        if (!e.get()) { c.violation("import", "a well-formed text is not imported: " + why.substr(0, 200), mine); return; }
        std::string df = diffEngines(want.get(), e.get(), o); if (!df.empty()) { c.violation("import", "a well-formed text gives another engine: " + df, mine); return; }
    } else {
        // rules that FIS cannot express are reported
        RuleSpec w; std::vector<Prop> ps; Expr::K op = r.coin() ? Expr::And : Expr::Or; std::string kind;
        for (size_t i = 0; i < s.in.size(); ++i) if (r.chance(0.7)) ps.push_back(prop(r, s, false, (int) i, true)); if (ps.empty()) ps.push_back(prop(r, s, false, 0, true));
        w.cons.push_back(prop(r, s, true, r.below((int) s.out.size()), true)); bool mixed = false;
        int k = r.below(6);
        if (k == 0 && ps.size() > 2) { mixed = true; kind = "mixed connectors"; }
        else if (k == 1) { ps.insert(ps.begin() + r.below((int) ps.size() + 1), prop(r, s, false, ps[r.below((int) ps.size())].var, true)); kind = "repeated input"; }
        else if (k == 2) { Prop p = prop(r, s, true, r.below((int) s.out.size()), true); ps.insert(ps.begin() + r.below((int) ps.size() + 1), p); kind = "output in antecedent"; }
        else if (k == 3) { w.cons.push_back(prop(r, s, true, w.cons[0].var, true)); kind = "repeated output"; }
        else { bool cons = k == 4; Prop& p = cons ? w.cons[0] : ps[r.below((int) ps.size())]; int guard = 0; do p = prop(r, s, cons, p.var, false); while ((std::count(p.hedges.begin(), p.hedges.end(), "not") == (long) p.hedges.size() || [&]() { std::vector<std::string> m; for (auto& h : p.hedges) if (h != "not") m.push_back(h); bool lead = true, seen = false; for (auto& h : p.hedges) if (h != "not") seen = true; else if (seen) lead = false; return lead && (m.size() < 2 || (m.size() == 2 && m[0] == "very" && m[1] == "very")); }()) && ++guard < 100); if (guard >= 100) return; kind = "hedges without a code"; }
        EX x = shape(r, ps, op); if (mixed) { std::function<bool(EX&)> flip = [&](EX& y) { if (y->k == Expr::P) return false; if (y->l->k == Expr::P && y->r->k == Expr::P) { y->k = y->k == Expr::And ? Expr::Or : Expr::And; return true; } return flip(y->l) || flip(y->r); }; flip(x); std::set<int> ks; std::function<void(const EX&)> go = [&](const EX& y) { if (y->k != Expr::P) { ks.insert(y->k); go(y->l); go(y->r); } }; go(x); if (ks.size() < 2) return; }
        w.ante = x; w.text = ruleText(s, w); BlockSpec& bb = t.blocks[r.below((int) t.blocks.size())]; bb.rules.insert(bb.rules.begin() + r.below((int) bb.rules.size() + 1), w);
        a.reset(buildApi(t)); std::string fis; bool threw; std::string why = caught([&]() { fis = ex.toString(a.get()); }, &threw); c.count("inexpressible: " + kind); c.count("inexpressible rules"); c.distinct(w.text);
        if (!threw) c.violation("inexpressible", "a rule that FIS cannot express is exported without an error (" + kind + "): " + w.text, fis);
        else if (why.compare(0, 3, "fl:") != 0 || why.size() < 6) c.violation("inexpressible", "the error is not an exception of the library with a message: " + why, w.text);
        return;
    }
    for (int k = r.range(1, 4); k-- > 0;) {
        std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.1) ? NaN : genInput(r, v, r.chance(0.2)));
        std::string p = outs(want.get(), x), q = outs(e.get(), x); c.count("steps compared");
        if (p != q) { c.violation("behaviour", "the imported engine computes differently: " + diffText(p, q), "inputs " + vecStr(x) + "\n" + specStr(t)); return; }
        if (p == "fails") { c.count("failing steps"); break; }
    }
}
Property vf::PROPERTY("P20", 6000, 120000, run, "one engine that FIS can express (all shapes and operators; rules with propositions in any order and grouping, spread over blocks): export against an independent writer, import, comparison with the engine written in the order of FIS, re-export; independently written texts with optional keys; rules FIS cannot express; distinct: texts",
    {{"round trips", 2500}, {"independently written texts", 1000}, {"inexpressible rules", 300}, {"steps compared", 4000}, {"rules round-tripped", 8000}, {"rules not loaded", 200}});
