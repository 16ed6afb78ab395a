#include "spec.hpp"
#include "mutator.hpp"
using namespace vf;
typedef std::map<std::string, std::unique_ptr<fl::Engine> > Engines;
static std::vector<std::string> BASES;   // shipped engines: path without extension
static std::string root() { const char* r = getenv("VF_REPO"); return std::string(r ? r : "/repo") + "/examples/"; }
static bool exists(const std::string& p) { std::ifstream f(p.c_str()); return !!f; }
static void init(Ctx&) {
    fl::fuzzylite::setDecimals(3);
    std::istringstream i(
        "hybrid/ObstacleAvoidance hybrid/tipper mamdani/AllTerms mamdani/Laundry mamdani/ObstacleAvoidance mamdani/SimpleDimmer mamdani/SimpleDimmerChained mamdani/SimpleDimmerInverse mamdani/matlab/mam21 mamdani/matlab/mam22 mamdani/matlab/shower mamdani/matlab/tank mamdani/matlab/tank2 mamdani/matlab/tipper mamdani/matlab/tipper1 mamdani/octave/investment_portfolio mamdani/octave/mamdani_tip_calculator "
        "takagi-sugeno/ObstacleAvoidance takagi-sugeno/SimpleDimmer takagi-sugeno/approximation takagi-sugeno/matlab/fpeaks takagi-sugeno/matlab/invkine1 takagi-sugeno/matlab/invkine2 takagi-sugeno/matlab/juggler takagi-sugeno/matlab/membrn1 takagi-sugeno/matlab/membrn2 takagi-sugeno/matlab/slbb takagi-sugeno/matlab/slcp takagi-sugeno/matlab/slcp1 takagi-sugeno/matlab/slcpp1 takagi-sugeno/matlab/sltbu_fl takagi-sugeno/matlab/sugeno1 takagi-sugeno/matlab/tanksg takagi-sugeno/matlab/tippersg takagi-sugeno/octave/cubic_approximator takagi-sugeno/octave/heart_disease_risk takagi-sugeno/octave/linear_tip_calculator takagi-sugeno/octave/sugeno_tip_calculator tsukamoto/tsukamoto");
    std::string s; while (i >> s) if (exists(root() + s + ".fll")) BASES.push_back(s);
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
// the lines of a description: without comments, blank lines, indentation and what depends on the version of the library
static std::vector<std::string> body(const std::string& text, const std::string& ext) {
    std::vector<std::string> o; bool on = ext != "cpp" && ext != "java";
    for (std::string l : lines(text)) {
        size_t a = l.find_first_not_of(" \t\r"), b = l.find_last_not_of(" \t\r"); if (a == std::string::npos) continue; l = l.substr(a, b - a + 1);
        if (l[0] == '#' || l[0] == '%' || l.compare(0, 2, "//") == 0) continue;
        if (ext == "fis" && (l.compare(0, 8, "Version=") == 0 || l.compare(0, 5, "Type=") == 0)) continue;
        if (ext == "cpp" || ext == "java") { if (!on && l.find("engine = new Engine") != std::string::npos) on = true; if (l == "}" || !on) continue; }
        if (ext == "fll") { size_t q = l.rfind(" Automatic"); if (q != std::string::npos && q + 10 == l.size()) l = l.substr(0, q); }
        o.push_back(l);
    }
    return o;
}
static std::string firstDiff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { std::string x = i < a.size() ? a[i] : "<nothing>", y = i < b.size() ? b[i] : "<nothing>"; if (x != y) return "'" + x + "' instead of '" + y + "'"; }
    return "";
}
static fl::Engine* import(const std::string& text, const std::string& ext) { return ext == "fll" ? fl::FllImporter().fromString(text) : ext == "fis" ? fl::FisImporter().fromString(text) : fl::FclImporter().fromString(text); }
static std::string exported(const fl::Engine* e, const std::string& ext) { return ext == "fll" ? fl::FllExporter().toString(e) : ext == "fis" ? fl::FisExporter().toString(e) : ext == "fcl" ? fl::FclExporter().toString(e) : ext == "cpp" ? fl::CppExporter().toString(e) : fl::JavaExporter().toString(e); }
// gives an engine imported from FIS or FCL the settings of the FLL engine that the other format has no place for
static void align(const fl::Engine* a, fl::Engine* b, const std::string& ext) {
    for (size_t i = 0; i < a->numberOfOutputVariables(); ++i) {
        fl::OutputVariable *x = a->getOutputVariable(i), *y = b->getOutputVariable(i); if (ext == "fis" && !x->getAggregation()) y->setAggregation(nullptr);
        if (auto d = dynamic_cast<fl::IntegralDefuzzifier*>(x->getDefuzzifier())) if (auto f = dynamic_cast<fl::IntegralDefuzzifier*>(y->getDefuzzifier())) f->setResolution(d->getResolution());
        y->setLockPreviousValue(x->isLockPreviousValue()); y->setLockValueInRange(x->isLockValueInRange());
    }
    for (size_t i = 0; i < a->numberOfInputVariables(); ++i) b->getInputVariable(i)->setLockValueInRange(a->getInputVariable(i)->isLockValueInRange());
    if (ext != "fis") return;
    for (auto x : b->ruleBlocks()) { fl::RuleBlock* y = a->getRuleBlock(0); x->setName(y->getName()); if (!y->getConjunction()) x->setConjunction(nullptr); if (!y->getDisjunction()) x->setDisjunction(nullptr); if (!y->getImplication()) x->setImplication(nullptr); }
}
static std::string outputs(fl::Engine* e) { std::string s; for (auto o : e->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + " "; return s; }

static void run(Ctx& c, Rng& r, long idx) {
    std::string base = BASES[idx % BASES.size()]; bool again = idx >= (long) BASES.size(); c.note(base);
    Engines es; std::map<std::string, std::string> text; bool chained = base == "mamdani/Laundry" || base == "mamdani/SimpleDimmerChained" || base == "mamdani/SimpleDimmerInverse", hybrid = base.compare(0, 7, "hybrid/") == 0;   // FIS has no conditions on outputs, and one defuzzifier
    for (std::string ext : {"fll", "fis", "fcl"}) {
        std::string path = root() + base + "." + ext; if (!exists(path)) { c.violation("missing", "the example " + base + " is not shipped as " + ext); return; }
        text[ext] = readFile(path); std::string why; bool t; fl::Engine* e = nullptr;
        if (r.coin()) why = caught([&]() { e = ext == "fll" ? fl::FllImporter().fromFile(path) : ext == "fis" ? fl::FisImporter().fromFile(path) : fl::FclImporter().fromFile(path); }, &t); else why = caught([&]() { e = import(text[ext], ext); }, &t);
        if (t || !e) { c.violation("import", base + "." + ext + " is not imported: " + why); return; }
        es[ext].reset(e); c.count("descriptions imported");
        std::string msg; if (!e->isReady(&msg)) c.violation("ready", base + "." + ext + " is not ready: " + msg);
        for (auto b : e->ruleBlocks()) for (auto q : b->rules()) if (!q->isLoaded() && !(chained && ext == "fis")) c.violation("rule", "a rule of " + base + "." + ext + " is not loaded: " + q->getText());
        std::string d = firstDiff(body(exported(e, ext), ext), body(text[ext], ext)); if (d != "" && !(chained && ext == "fis")) c.violation("re-export " + ext, "exporting " + base + "." + ext + " again writes " + d);
        c.count("descriptions exported again");
    }
    fl::Engine* a = es["fll"].get();
    for (std::string ext : {"fis", "fcl", "cpp", "java"}) {
        std::string path = root() + base + "." + ext; if (!exists(path)) { c.violation("missing", "the example " + base + " is not shipped as " + ext); continue; }
        std::string d = firstDiff(body(exported(a, ext), ext), body(readFile(path), ext)); if (d != "") c.violation("export " + ext, "exporting " + base + ".fll to " + ext + " writes " + d);
        c.count("conversions compared");
    }
    { std::string s = exported(a, "fll"), f = readFile(root() + base + ".R"); size_t p = f.find("engine.fll = \""), q = p == std::string::npos ? p : f.find('"', p + 14); if (q != std::string::npos) { std::string d = firstDiff(body(s, "fll"), body(f.substr(p + 14, q - p - 14), "fll")); if (d != "") c.violation("export R", "the R script of " + base + " has " + d); c.count("conversions compared"); } }
    // the same engine in all formats
    std::vector<std::unique_ptr<fl::Engine> > twins; std::vector<std::string> from;
    for (std::string ext : {"fis", "fcl"}) {
        fl::Engine* b = es[ext].get(); if (a->numberOfInputVariables() != b->numberOfInputVariables() || a->numberOfOutputVariables() != b->numberOfOutputVariables()) { c.violation("parts", base + "." + ext + " has other variables than the FLL"); continue; }
        if (ext == "fis" && (chained || hybrid)) continue;
        align(a, b, ext); CmpOpts o; o.descriptions = false; o.eps = 1e-9; if (ext != "fll") { o.wtype = false; o.activation = false; }
        std::string d = diffEngines(a, b, o);
        if (d != "") c.violation("formats " + ext, base + ".fll and " + base + "." + ext + " are different engines: " + d); c.count("pairs of formats compared");
        twins.push_back(std::unique_ptr<fl::Engine>(b->clone())); from.push_back(ext);
    }
    std::string orig = root() + "original/" + base + ".fll";
    if (exists(orig)) { std::unique_ptr<fl::Engine> b(fl::FllImporter().fromFile(orig)); CmpOpts o; o.descriptions = false; bool exact = diffEngines(a, b.get(), o) == ""; o.eps = 6e-4; std::string d = diffEngines(a, b.get(), o); if (d != "") c.violation("original", "the original of " + base + ".fll is a different engine: " + d); c.count("originals compared"); if (exact) { twins.push_back(std::move(b)); from.push_back("original fll"); } }
    { std::unique_ptr<fl::Engine> b(import(exported(a, "fll"), "fll")); twins.push_back(std::move(b)); from.push_back("re-imported fll"); std::unique_ptr<fl::Engine> k(new fl::Engine(*a)); twins.push_back(std::move(k)); from.push_back("copied fll"); }
    // the same outputs for the same inputs
    for (auto& e : twins) e->restart();
    std::unique_ptr<fl::Engine> w(a->clone()); w->restart(); int n = 60;
    for (int k = 0; k < n; ++k) {
        std::vector<double> in; for (auto v : w->inputVariables()) { VarSpec s; s.lo = v->getMinimum(); s.hi = v->getMaximum(); double x = r.chance(0.08) ? r.coin() ? NaN : r.coin() ? Inf : -Inf : r.chance(0.15) ? (r.coin() ? s.lo : s.hi) : r.chance(0.1) ? r.real(s.lo - 1, s.hi + 1) : r.real(s.lo, s.hi); in.push_back(x); }
        for (size_t i = 0; i < in.size(); ++i) w->setInputValue(w->getInputVariable(i)->getName(), in[i]);
        w->process(); c.count("inputs processed"); c.distinct(outputs(w.get()));
        for (size_t j = 0; j < twins.size(); ++j) { fl::Engine* b = twins[j].get(); for (size_t i = 0; i < in.size(); ++i) b->getInputVariable(i)->setValue(in[i]); b->process(); c.count("outputs compared");
            for (size_t q = 0; q < w->numberOfOutputVariables(); ++q) if (!close(w->getOutputVariable(q)->getValue(), b->getOutputVariable(q)->getValue(), 1e-9)) { c.violation("outputs " + from[j], base + ": processing " + vecStr(in) + " yields " + outputs(w.get()) + "from FLL but " + outputs(b) + "from " + from[j]); k = n; break; } }
    }
    // the shipped dataset
    if (again) return;
    std::string path = root() + base + ".fld"; if (!exists(path)) { c.violation("missing", "the example " + base + " has no dataset"); return; }
    fl::fuzzylite::setDecimals(9); std::string data = fl::FldExporter().toString(a, 1024, fl::FldExporter::AllVariables); fl::fuzzylite::setDecimals(3);
    std::vector<std::string> x = lines(data), y = lines(readFile(path)); if (x.size() != y.size()) { c.violation("dataset", base + ".fld has " + std::to_string(y.size()) + " lines, the engine yields " + std::to_string(x.size())); return; }
    if (x[0] != y[0]) c.violation("dataset", "the header of " + base + ".fld is '" + y[0] + "', the engine yields '" + x[0] + "'");
    uint64_t h = 7; long bad = 0; std::string shown; size_t ni = a->numberOfInputVariables();
    for (size_t i = 1; i < x.size(); ++i) {
        std::vector<double> p, q; { std::istringstream s(x[i]), t(y[i]); std::string z; while (s >> z) p.push_back(strtod(z.c_str(), nullptr)); while (t >> z) q.push_back(strtod(z.c_str(), nullptr)); }
        bool ok = p.size() == q.size(); for (size_t j = 0; ok && j < p.size(); ++j) ok = close(p[j], q[j], j < ni ? 2e-9 : 1e-7);
        c.count("dataset rows"); if (!ok) { bad++; if (shown.empty()) shown = "'" + x[i] + "' instead of '" + y[i] + "'"; h = hashStr(std::to_string(i), h); for (double z : p) { char b[40]; snprintf(b, sizeof b, "%.5f ", z); h = hashStr(b, h); } }
    }
    if (bad) c.violation("dataset " + base + " " + std::to_string(bad) + " rows " + std::to_string(h), std::to_string(bad) + " rows of the dataset " + base + ".fld are not reproduced: " + shown);
    if (c.wantSample()) c.sample(base + ": " + std::to_string(x.size() - 1) + " rows of " + x[0]);
}
Property vf::PROPERTY("P37", 39 * 8, 39 * 200, run, "Each shipped example is imported from FLL, FIS and FCL, exported again and compared with the shipped FLL, FIS, FCL, C++, Java and R texts (comments, versions and layout apart); the engines from the different formats, after giving them the settings without a place in FIS or FCL (resolution, locks, absent operators), are compared part by part and on random inputs; and the shipped dataset of 1024 grid points is recomputed.",
    {{"descriptions imported", 900}, {"descriptions exported again", 900}, {"conversions compared", 1200}, {"pairs of formats compared", 500}, {"dataset rows", 38000}, {"outputs compared", 40000}, {"originals compared", 100}}, true, 60, init);
