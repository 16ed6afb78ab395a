#include "state.hpp"
using namespace vf;
static const std::map<std::string, std::string> NORM = {{"Minimum", "MIN"}, {"AlgebraicProduct", "PROD"}, {"BoundedDifference", "BDIF"}, {"DrasticProduct", "DPROD"}, {"EinsteinProduct", "EPROD"}, {"HamacherProduct", "HPROD"}, {"NilpotentMinimum", "NMIN"},
    {"Maximum", "MAX"}, {"AlgebraicSum", "ASUM"}, {"BoundedSum", "BSUM"}, {"NormalizedSum", "NSUM"}, {"DrasticSum", "DSUM"}, {"EinsteinSum", "ESUM"}, {"HamacherSum", "HSUM"}, {"NilpotentMaximum", "NMAX"}, {"UnboundedSum", "UnboundedSum"}};
static const std::map<std::string, std::string> DEF = {{"Centroid", "COG"}, {"Bisector", "COA"}, {"LargestOfMaximum", "RM"}, {"MeanOfMaximum", "MM"}, {"SmallestOfMaximum", "LM"}, {"WeightedAverage", "COGS"}, {"WeightedSum", "COGSS"}};
static std::string termFcl(const TermSpec& t, int d) {
    std::string s; if (t.cls == "Discrete") { for (size_t i = 0; i + 1 < t.p.size(); i += 2) s += (i ? " (" : "(") + dec3(t.p[i], d) + ", " + dec3(t.p[i + 1], d) + ")"; return s; }
    return t.cls == "Constant" ? dec3(t.p[0], d) : t.cls + " " + paramText(t, d);
}
static std::string writeFcl(Rng& r, const EngineSpec& s, int d, bool vary) {
    auto ws = [&]() { return vary && r.chance(0.3) ? " " : ""; }; auto in = [&]() { return !vary ? "  " : r.coin() ? "" : "\t "; }; auto junk = [&]() { return vary && r.chance(0.12) ? pickS(r, {"# comment\n", "\n", "% comment\n", "   // comment; (x)\n"}) : std::string(); };
    auto end = [&]() { return vary && r.chance(0.1) ? "\n" : vary && r.chance(0.1) ? "; // remark\n" : ";\n"; };
    std::ostringstream f; f << junk() << "FUNCTION_BLOCK " << s.name << "\n\nVAR_INPUT\n"; for (auto& v : s.in) f << in() << v.name << ws() << ": REAL" << end(); f << "END_VAR\n\n" << junk() << "VAR_OUTPUT\n"; for (auto& v : s.out) f << in() << v.name << ": REAL" << end(); f << "END_VAR\n\n";
    std::vector<int> order; for (size_t i = 0; i < s.in.size() + s.out.size(); ++i) order.push_back((int) i); if (vary) { std::vector<int> fn; for (auto& v : s.out) for (auto& t : v.terms) if (t.cls == "Function" || t.cls == "Linear") fn.push_back(1); if (fn.empty()) r.shuffle(order); }
    for (int i : order) {
        bool o = i >= (int) s.in.size(); const VarSpec& v = o ? s.out[i - s.in.size()] : s.in[i];
        f << (o ? "DEFUZZIFY " : "FUZZIFY ") << v.name << "\n";
        if (!v.enabled) f << in() << "ENABLED : FALSE" << end(); else if (vary && r.chance(0.3)) f << in() << "ENABLED : TRUE" << end();
        f << in() << "RANGE := (" << dec3(v.lo, d) << ws() << (vary && r.coin() ? ".." : " .. ") << ws() << dec3(v.hi, d) << ")" << end() << junk();
        for (auto& t : v.terms) f << in() << "TERM " << t.name << " :=" << (vary && r.chance(0.2) ? "" : " ") << termFcl(t, d) << end() << junk();
        if (o) { if (!v.defuzz.empty()) f << in() << "METHOD" << ws() << " : " << DEF.at(v.defuzz) << end(); if (!v.agg.empty()) f << in() << "ACCU : " << NORM.at(v.agg) << end(); f << in() << "DEFAULT := " << dec3(v.def, d) << (v.lockPrev ? " | NC" : "") << end(); if (v.lockRange) f << in() << "LOCK : " << (v.lockPrev ? (r.coin() ? "PREVIOUS | RANGE" : "RANGE|PREVIOUS") : "RANGE") << end(); else if (v.lockPrev && vary && r.coin()) f << in() << "LOCK : PREVIOUS" << end(); }
        f << (o ? "END_DEFUZZIFY\n\n" : "END_FUZZIFY\n\n");
    }
    for (auto& b : s.blocks) {
        f << "RULEBLOCK " << b.name << "\n"; if (!b.enabled) f << in() << "ENABLED : FALSE" << end();
        if (!b.conj.empty()) f << in() << "AND : " << NORM.at(b.conj) << end(); if (!b.disj.empty()) f << in() << "OR : " << NORM.at(b.disj) << end(); if (!b.impl.empty()) f << in() << "ACT : " << NORM.at(b.impl) << end();
        int n = 0; for (auto& q : b.rules) { ++n; f << in() << "RULE " << (vary && r.chance(0.2) ? r.range(1, 99) : n) << " : " << q.text << (vary && r.coin() ? ";" : "") << "\n" << junk(); } f << "END_RULEBLOCK\n\n";
    }
    f << "END_FUNCTION_BLOCK\n"; return f.str();
}
static std::string canon(const std::string& s) { std::string o, l; std::istringstream i(s); while (std::getline(i, l)) { if (l.compare(0, 2, "//") == 0) continue; std::istringstream w(l); std::string t, q; while (w >> t) q += t + " "; if (!q.empty()) o += q + "\n"; } return o; }
static std::string outs(fl::Engine* e, const std::vector<double>& x) {
    for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]);
    bool threw; caught([&]() { e->process(); }, &threw); if (threw) return "fails";
    std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + "\n"; return s;
}
static void run(Ctx& c, Rng& r, long) {
    int d = r.chance(0.6) ? 3 : r.range(3, 8); int od = r.chance(0.6) ? d : r.below(10); fl::fuzzylite::setDecimals(d);
    GenOpts g; g.heavy = 0.04; g.large = 0.02; g.locks = 0; g.disabled = 0; g.descriptions = false; g.activations = false; g.maxIn = 4; g.infiniteRange = r.chance(0.1);
    EngineSpec s = genEngine(r, g); bool own = r.chance(0.35);
    if (r.chance(0.06)) { d = r.below(3); fl::fuzzylite::setDecimals(d); roundSpec(s, d); c.count("few decimals"); }
    for (auto& v : s.out) { v.res = fl::IntegralDefuzzifier::defaultResolution(); v.wtype = "Automatic"; v.lockPrev = r.chance(0.3); if (r.chance(0.1)) v.agg = ""; if (r.chance(0.05)) v.defuzz = ""; }
    for (int o = 0; o < 2; ++o) for (auto& v : o ? s.out : s.in) for (auto& t : v.terms) if (t.cls == "Discrete") t.height = 1.0;
    for (auto& b : s.blocks) { if (b.name.empty() && r.coin()) b.name = "rb"; if (r.chance(0.05)) b.conj = ""; if (r.chance(0.05)) b.disj = ""; if (r.chance(0.05)) b.impl = ""; if (r.chance(0.1)) b.rules.clear(); for (auto& q : b.rules) { q.text = ruleText(s, q, &r); } }
    if (own) { for (auto& v : s.in) v.enabled = !r.chance(0.2); for (auto& v : s.out) { v.enabled = !r.chance(0.2); v.lockRange = r.chance(0.3); } for (auto& b : s.blocks) b.enabled = !r.chance(0.2); }
    std::unique_ptr<fl::Engine> a(buildApi(s)), e; fl::FclExporter ex; if (r.chance(0.2)) ex.setIndent(r.coin() ? "\t" : ""); fl::FclImporter im; c.note(specStr(s)); CmpOpts o; o.descriptions = false; std::string why;
    if (!own) {
        std::string fcl; why = caught([&]() { fcl = ex.toString(a.get()); }); c.count("engines exported"); c.distinct(fcl);
        if (fcl.empty()) { c.violation("export", "an engine that FCL can express is not exported: " + why.substr(0, 200), specStr(s)); return; }
        std::string mine = writeFcl(r, s, d, false); if (canon(mine) != canon(fcl)) { c.violation("export", "the exported text is not the description of the engine: " + diffText(canon(mine), canon(fcl)), fcl + "\n--\n" + specStr(s)); return; }
        if (r.chance(0.1)) { std::string p = scratchDir() + "/e.fcl"; ex.toFile(p, a.get()); why = caught([&]() { Decimals z(od); e.reset(im.fromFile(p)); }); } else why = caught([&]() { Decimals z(od); e.reset(im.fromString(fcl)); });
        if (!e.get()) { c.violation("import", "the exported text is not imported: " + why.substr(0, 200), fcl); return; }
        std::string df = diffEngines(a.get(), e.get(), o); if (!df.empty()) { c.violation("round-trip", "the imported engine differs: " + df, fcl + "\n--\n" + specStr(s)); return; }
        std::string f2; caught([&]() { f2 = ex.toString(e.get()); }); if (f2 != fcl) { c.violation("fixpoint", "exporting the imported engine gives another text: " + diffText(fcl, f2), fcl); return; }
        c.count("round trips");
    } else {
        std::string mine = writeFcl(r, s, d, true); why = caught([&]() { Decimals z(od); e.reset(im.fromString(mine)); }); c.count("independently written texts"); c.distinct(mine);
        if (!e.get()) { c.violation("import", "a well-formed text is not imported: " + why.substr(0, 200), mine); return; }
        std::string df = diffEngines(a.get(), e.get(), o); if (!df.empty()) { c.violation("import", "a well-formed text gives another engine: " + df, mine); return; }
    }
    for (int k = r.range(1, 4); k-- > 0;) {
        std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.1) ? NaN : genInput(r, v, r.chance(0.2)));
        std::string p = outs(a.get(), x), q = outs(e.get(), x); c.count("steps compared");
        if (p != q) { c.violation("behaviour", "the imported engine computes differently: " + diffText(p, q), "inputs " + vecStr(x) + "\n" + specStr(s)); return; }
        if (p == "fails") { c.count("failing steps"); break; }
    }
}
Property vf::PROPERTY("P21", 6000, 120000, run, "one engine that FCL can express (all shapes, operators, defuzzifiers, defaults and locks): export against an independent writer, import, structural and behavioural comparison, re-export; independently written texts with optional keys, comments, spacing and block order; distinct: texts",
    {{"round trips", 2500}, {"independently written texts", 1200}, {"steps compared", 4000}});
