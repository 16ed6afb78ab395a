#include "code.hpp"
using namespace vf;
static std::string outs(fl::Engine* e, const std::vector<double>& x) {
    for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]);
    bool threw; caught([&]() { e->process(); }, &threw); if (threw) return "fails";
    std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + "\n"; return s;
}
static void run(Ctx& c, Rng& r, long) {
    if (r.chance(0.2)) fl::fuzzylite::setDecimals(r.range(3, 9));
    bool names = r.coin(); EngineSpec s = genCodeEngine(r, names); if (r.chance(0.06)) { int d = r.below(3); fl::fuzzylite::setDecimals(d); roundSpec(s, d); c.count("few decimals"); } std::unique_ptr<fl::Engine> a(buildApi(s)), b;
    fl::JavaExporter ex(names); if (r.chance(0.2)) { ex.setUsingVariableNames(!names); ex.setUsingVariableNames(names); } if (ex.isUsingVariableNames() != names) c.violation("style", "the exporter does not keep its settings");
    std::string code = ex.toString(a.get()), why; c.note(code); c.count("engines"); c.distinct(code); if (c.wantSample()) c.sample(code); long st = 0; std::vector<std::string> used;
    b = interpret(code, JAVA, why, st, &used); c.count("statements", st);
    if (!b.get()) { c.violation("malformed", "the exported code is not well-formed: " + why, code); return; }
    std::string p = describe(a.get(), false), q = describe(b.get(), false); if (p != q) { c.violation("differs", "the exported code describes another engine: " + diffText(p, q), code); return; }
    // the names of the variables of the code follow the style
    std::vector<std::string> want(1, "engine"); auto idx = [&](const char* w, size_t i, size_t n) { return n > 1 ? w + std::to_string(i + 1) : std::string(w); };
    auto clean = [](const std::string& t) { std::string o; for (char ch : t) if (isalnum((unsigned char) ch) || ch == '_') o += ch; return o; };
    for (size_t i = 0; i < s.in.size(); ++i) want.push_back(names ? s.in[i].name : idx("inputVariable", i, s.in.size()));
    for (size_t i = 0; i < s.out.size(); ++i) want.push_back(names ? s.out[i].name : idx("outputVariable", i, s.out.size()));
    for (size_t i = 0; i < s.blocks.size(); ++i) want.push_back(names && !s.blocks[i].name.empty() ? clean(s.blocks[i].name) : idx("ruleBlock", i, s.blocks.size()));
    if (used != want) { std::string l; for (auto& x : used) l += x + " "; c.violation("names", "the code declares " + l, code); }
    if (names) c.count("named style");
    if (r.chance(0.1)) { std::string f = scratchDir() + "/E.java"; ex.toFile(f, a.get()); c.count("files"); if (readFile(f) != code + "\n") c.violation("file", "the exported file differs from the text", code); std::unique_ptr<fl::JavaExporter> k(ex.clone()); if (k->toString(a.get()) != code) c.violation("clone", "a copy of the exporter exports another text", code); }
    for (int k = 0; k < 2; ++k) { std::vector<double> x; for (auto& v : s.in) x.push_back(genInput(r, v, r.chance(0.2))); std::string u = outs(a.get(), x), w = outs(b.get(), x); c.count("steps compared"); if (u != w) { c.violation("behaviour", "the engine described computes differently: " + diffText(u, w), vecStr(x) + "\n" + code); return; } if (u == "fails") break; }
}
Property vf::PROPERTY("P23", 16000, 400000, run, "one engine of any kind (infinite and NaN parameters, quoted and multi-line texts, any operators) exported to Java in both styles; a strict interpreter of the code executes every statement on the library; distinct: exported codes",
    {{"engines", 4000}, {"statements", 100000}, {"named style", 1500}, {"steps compared", 4000}});
