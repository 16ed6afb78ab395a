#include "state.hpp"
#include "mutator.hpp"
using namespace vf;
static std::vector<std::string> FLL, FIS, FCL;
static void init(Ctx&) { FLL = examplesOf(".fll"); FIS = examplesOf(".fis"); FCL = examplesOf(".fcl"); }
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\n\v\f\r"), b = s.find_last_not_of(" \t\n\v\f\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
// what is expected of a complete engine imported from FLL: one part per block, one term and rule per line
static std::string expected(const std::string& fll) {
    std::istringstream in(fll); std::string l, s, last; int vars = 0; std::vector<int> n;
    while (std::getline(in, l)) { l = trim(l.substr(0, l.find('#'))); size_t c = l.find(':'); if (c == std::string::npos) continue; std::string k = trim(l.substr(0, c)); if (k == "InputVariable" || k == "OutputVariable" || k == "RuleBlock") { s += k[0]; s += "."; } else if (k == "term") s += "t"; else if (k == "rule") s += "r"; }
    // the parts are grouped by kind in the engine
    std::string i, o, b; std::string* cur = nullptr; for (size_t p = 0; p < s.size(); ++p) { char c = s[p]; if (c == '.') continue; if (c == 'I') cur = &i; else if (c == 'O') cur = &o; else if (c == 'R') cur = &b; if (cur) *cur += c; }
    return i + o + b;
}
static std::string found(const fl::Engine* e) {
    std::string s; for (auto v : e->inputVariables()) s += "I" + std::string(v->numberOfTerms(), 't'); for (auto v : e->outputVariables()) s += "O" + std::string(v->numberOfTerms(), 't'); for (auto b : e->ruleBlocks()) s += "R" + std::string(b->numberOfRules(), 'r'); return s;
}
static void use(Ctx& c, Rng& r, fl::Engine* e) {
    std::string d = foreign(e); if (!d.empty()) c.violation("incomplete", "an imported engine has foreign references: " + d);
    describe(e); e->toString(); e->isReady(); std::string t, q; e->type(&t, &q); std::string st; e->isReady(&st);
    long res = 0;
    for (auto o : e->outputVariables()) if (auto i = dynamic_cast<fl::IntegralDefuzzifier*>(o->getDefuzzifier())) { if (i->getResolution() > 500) i->setResolution(r.range(1, 60)); res += i->getResolution(); }
    for (auto b : e->ruleBlocks()) { if (!b->getActivation()) { c.violation("incomplete", "an imported rule block has no activation method"); break; } b->toString(); for (auto k : b->rules()) { k->toString(); if (k->isLoaded()) { k->getAntecedent()->toInfix(); k->getAntecedent()->toPrefix(); k->getConsequent()->toString(); } } }
    for (int k = 0; k < 2; ++k) {
        for (auto v : e->inputVariables()) { v->setValue(r.chance(0.15) ? NaN : r.chance(0.1) ? (r.coin() ? Inf : -Inf) : r.real(-3, 3)); v->fuzzify(v->getValue()); v->highestMembership(v->getValue()); }
        std::string ex = caught([&]() { e->process(); }); c.count(ex.empty() ? "imported engines processed" : "imported engines failing to process");
        for (auto o : e->outputVariables()) { o->fuzzyOutputValue(); o->fuzzyOutput()->toString(); }
    }
    caught([&]() { fl::FllExporter().toString(e); }); caught([&]() { fl::FisExporter().toString(e); }); caught([&]() { fl::FclExporter().toString(e); }); caught([&]() { fl::CppExporter().toString(e); }); caught([&]() { fl::JavaExporter().toString(e); }); caught([&]() { fl::FldExporter().toString(e, 8, fl::FldExporter::AllVariables); });
    std::unique_ptr<fl::Engine> k(e->clone()); d = foreign(k.get()); if (!d.empty()) c.violation("incomplete", "a copy of an imported engine has foreign references: " + d);
    caught([&]() { k->process(); }); caught([&]() { e->restart(); e->process(); });
}
static void run(Ctx& c, Rng& r, long idx) {
    int fmt = idx % 3; std::string s, other; bool pristine = false;
    const std::vector<std::string>& ex = fmt == 0 ? FLL : fmt == 1 ? FIS : FCL; const std::vector<std::string>& dict = fmt == 0 ? FLL_DICT : fmt == 1 ? FIS_DICT : FCL_DICT;
    if (!ex.empty()) other = ex[std::min((int) ex.size() - 1, (int) (ex.size() * r.unit() * r.unit()))];
    int src = r.below(10);
    if (src < 4 && !ex.empty()) s = ex[std::min((int) ex.size() - 1, (int) (ex.size() * r.unit() * r.unit()))];
    else if (src < 8) { GenOpts g; g.maxRules = 4; g.maxTerms = 4; if (fmt) { g.weights = 0.2; g.hedges = 0.2; g.disabled = 0; g.outAnte = 0; } EngineSpec e = genEngine(r, g); std::unique_ptr<fl::Engine> p(buildApi(e)); caught([&]() { s = fmt == 0 ? toFll(e) : fmt == 1 ? fl::FisExporter().toString(p.get()) : fl::FclExporter().toString(p.get()); }); pristine = fmt == 0; }
    else if (src == 8) { for (int k = r.range(1, 60); k-- > 0;) s += r.pick(dict) + (r.coin() ? " " : r.coin() ? "\n" : ""); }
    else { for (int k = r.range(0, 200); k-- > 0;) { static const std::string P = " \n:;=()[]'abc123"; s += (char) (r.chance(0.5) ? r.below(256) : P[r.below((int) P.size())]); } }
    if (r.chance(0.95)) { s = mutateText(r, s, dict, other, r.chance(0.15) ? r.range(5, 25) : r.coin() ? 1 : r.range(1, 4)); pristine = false; }
    c.note(s); c.distinct(s);
    bool threw; std::unique_ptr<fl::Engine> e;
    std::string m = caught([&]() { if (fmt == 0) { fl::FllImporter i; if (r.chance(0.05)) i.setSeparator(";"); e.reset(i.fromString(s)); if (i.getSeparator() == "\n" && expected(s) != found(e.get())) c.violation("incomplete", "an imported engine has parts " + found(e.get()) + " instead of " + expected(s), s); }
        else if (fmt == 1) e.reset(fl::FisImporter().fromString(s)); else e.reset(fl::FclImporter().fromString(s)); }, &threw);
    const char* F[] = {"FLL", "FIS", "FCL"}; c.count(std::string(F[fmt]) + (threw ? " rejected" : " imported"));
    if (threw && m.size() <= 3) c.violation("no-message", "an import fails without a message", s);
    if (pristine && threw && m.find("expected a colon") == std::string::npos /* another separator */) c.violation("rejected", "a well-formed text is rejected: " + m, s);
    if (threw) { size_t p = m.find('|'); c.count("kind of rejection: " + m.substr(0, std::min<size_t>(28, p))); }
    if (e.get()) use(c, r, e.get());
    else if (!threw) c.violation("no-engine", "an import gives neither an engine nor an exception", s);
    if (c.wantSample()) c.sample(s + "\n=> " + (threw ? m : std::string("imported")));
}
Property vf::PROPERTY("P01", 30000, 1500000, run, "shipped example engines and generated engines in FLL, FIS and FCL under structure-aware mutation (tokens, lines, numbers, bytes, splices, truncation), and texts of random keywords and bytes; imported engines are described, processed, exported, copied and destroyed under AddressSanitizer, UndefinedBehaviorSanitizer, leak and CPU-time monitors; distinct counts texts",
    {{"FLL imported", 700}, {"FLL rejected", 700}, {"FIS imported", 500}, {"FIS rejected", 700}, {"FCL imported", 500}, {"FCL rejected", 700}, {"imported engines processed", 1500}}, true, 40, init);
