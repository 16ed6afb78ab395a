#include "code.hpp"
using namespace vf;
static std::string outs(fl::Engine* e, const std::vector<double>& x) {
    for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]);
    bool threw; caught([&]() { e->process(); }, &threw); if (threw) return "fails";
    std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + " "; return s;
}
static bool gen = false; static long limit = 0;
static void init(Ctx&) { gen = getenv("VF_GEN") != nullptr; limit = gen ? atol(getenv("VF_GEN")) : 0; }
static void run(Ctx& c, Rng& r, long idx) {
    if (r.chance(0.2)) fl::fuzzylite::setDecimals(r.range(3, 9));
    bool names = r.coin(), prefix = r.coin(); EngineSpec s = genCodeEngine(r, names);
    if (r.chance(0.06)) {   // few decimals, and numbers that these represent
        int d = r.below(3); fl::fuzzylite::setDecimals(d); roundSpec(s, d); c.count("few decimals");
    } std::unique_ptr<fl::Engine> a(buildApi(s)), b;
    fl::CppExporter ex(prefix, names); if (r.chance(0.2)) { ex = fl::CppExporter(); ex.setUsingVariableNames(names); ex.setUsingNamespace(prefix); } if (ex.isUsingVariableNames() != names || ex.isUsingNamespace() != prefix) c.violation("style", "the exporter does not keep its settings");
    std::string code = ex.toString(a.get()), why; c.note(code); c.count("engines"); c.distinct(code); if (c.wantSample()) c.sample(code); long st = 0; std::vector<std::string> used;
    bool padded = false;  // zero coefficients turn infinite inputs into NaN
    // linear terms: as many coefficients as the constructor of the code takes, with the same value
    for (auto& v : s.out) for (auto& t : v.terms) if (t.cls == "Linear") { padded = padded || t.p.size() < s.in.size(); std::vector<double> q(t.p.begin(), t.p.begin() + std::min(t.p.size(), s.in.size())); q.resize(s.in.size(), 0.0); q.push_back(t.p.size() > s.in.size() ? t.p.back() : 0.0); t.p = q; }
    std::unique_ptr<fl::Engine> n(buildApi(s));
    b = interpret(code, prefix ? CPP_PREFIX : CPP, why, st, &used); c.count("statements", st);
    if (!b.get()) { c.violation("malformed", "the exported code is not well-formed: " + why, code); return; }
    std::string p = describe(n.get(), false), q = describe(b.get(), false); if (p != q) { c.violation("differs", "the exported code describes another engine: " + diffText(p, q), code); return; }
    std::vector<std::string> want(1, "engine"); auto ix = [&](const char* w, size_t i, size_t k) { return k > 1 ? w + std::to_string(i + 1) : std::string(w); };
    auto clean = [](const std::string& t) { std::string o; for (char ch : t) if (isalnum((unsigned char) ch) || ch == '_') o += ch; return o; };
    for (size_t i = 0; i < s.in.size(); ++i) want.push_back(names ? s.in[i].name : ix("inputVariable", i, s.in.size()));
    for (size_t i = 0; i < s.out.size(); ++i) want.push_back(names ? s.out[i].name : ix("outputVariable", i, s.out.size()));
    for (size_t i = 0; i < s.blocks.size(); ++i) want.push_back(names && !s.blocks[i].name.empty() ? clean(s.blocks[i].name) : ix("ruleBlock", i, s.blocks.size()));
    if (used != want) { std::string l; for (auto& x : used) l += x + " "; c.violation("names", "the code declares " + l, code); }
    if (r.chance(0.1)) { std::string f = scratchDir() + "/E.cpp"; ex.toFile(f, a.get()); c.count("files"); if (readFile(f) != code + "\n") c.violation("file", "the exported file differs from the text", code); std::unique_ptr<fl::CppExporter> k(ex.clone()); if (k->toString(a.get()) != code) c.violation("clone", "a copy of the exporter exports another text", code); }
    if (r.chance(0.05)) { static const char* h[] = {"any", "extremely", "not", "seldom", "somewhat", "very"}; static const char* hc[] = {"Any", "Extremely", "Not", "Seldom", "Somewhat", "Very"}; for (int i = 0; i < 6; ++i) { std::unique_ptr<fl::Hedge> x(fl::FactoryManager::instance()->hedge()->constructObject(h[i])); if (ex.toString(x.get()) != std::string(prefix ? "new fl::" : "new ") + hc[i]) c.violation("hedge", ex.toString(x.get())); } c.count("hedges", 6); }
    std::string rows;
    for (int k = 0; k < 3; ++k) { std::vector<double> x; for (auto& v : s.in) x.push_back(genInput(r, v, !padded && r.chance(0.2))); std::string u = outs(a.get(), x), w = outs(b.get(), x); c.count("steps compared"); if (u != w) { c.violation("behaviour", "the engine described computes differently: " + diffText(u, w), vecStr(x) + "\n" + code); return; }
        rows += "> "; for (double y : x) rows += num(y) + " "; rows += "\n< " + u + "\n"; if (u == "fails") break; }
    if (gen && idx < limit && !c.dry) { std::string base = std::string(getenv("VF_SCRATCH")) + "/gen/" + std::to_string(idx); writeFile(base + ".cpp", code); writeFile(base + ".txt", rows + "= " + p); c.count("to be compiled"); }
}
Property vf::PROPERTY("P22", 12000, 300000, run, "one engine of any kind (infinite and NaN parameters, quoted and multi-line texts, any operators, linear terms of any length) exported to C++ in the four styles: a strict interpreter of the code executes every statement on the library, and the first cases are compiled and run; distinct: exported codes",
    {{"engines", 8000}, {"statements", 200000}, {"steps compared", 8000}, {"compiled functions", 60}, {"compiled steps", 120}}, true, 40, init);
