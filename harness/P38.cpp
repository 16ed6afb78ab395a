#include "state.hpp"
#include "model.hpp"
#include "mutator.hpp"
using namespace vf;
typedef std::ios_base::fmtflags Flags;
struct Settings { int dec = 3; Flags fmt = std::ios_base::fixed; double eps = 1e-6; bool debug = false, log = true; double atol = 1e-3; };
static void apply(const Settings& s) { fl::fuzzylite::setDecimals(s.dec); fl::fuzzylite::setScalarFormat(s.fmt); fl::fuzzylite::setMachEps(s.eps); fl::fuzzylite::setDebugging(s.debug); fl::fuzzylite::setLogging(s.log); fl::fuzzylite::setAbsoluteTolerance(s.atol); }
static std::string str(const Settings& s) { return "decimals " + std::to_string(s.dec) + " format " + std::string(s.fmt == std::ios_base::fixed ? "fixed" : s.fmt == std::ios_base::scientific ? "scientific" : "general") + " tolerance " + num(s.eps) + " debugging " + std::to_string(s.debug) + " logging " + std::to_string(s.log); }
static bool readBack(const Settings& s) { return fl::fuzzylite::decimals() == s.dec && fl::fuzzylite::scalarFormat() == s.fmt && fl::fuzzylite::macheps() == s.eps && fl::fuzzylite::isDebugging() == s.debug && fl::fuzzylite::isLogging() == s.log && fl::fuzzylite::absoluteTolerance() == s.atol; }
struct Restore { ~Restore() { apply(Settings()); } };
// how a number has to be printed
static std::string printed(double x, int d, Flags f) {
    if (x != x) return "nan"; if (std::isinf(x)) return x < 0 ? "-inf" : "inf";
    if (d >= 0 && std::fabs(x) < std::pow(10.0, -d)) x = 0; if (d < 0) d = 6;
    char b[512]; snprintf(b, sizeof b, f == std::ios_base::fixed ? "%.*f" : f == std::ios_base::scientific ? "%.*e" : "%.*g", d, x); return b;
}
static bool cut(double x, int d) { double p = std::pow(10.0, -d); return std::fabs(std::fabs(x) - p) < 1e-9 * p; }   // cannot tell on which side
static std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> v(1); for (char ch : s) { if (isspace((unsigned char) ch) || strchr(",;:()[]{}=|'\"", ch)) { if (!v.back().empty()) v.push_back(""); v.push_back(std::string(1, ch)); v.push_back(""); } else v.back() += ch; } std::vector<std::string> w; for (auto& t : v) if (!t.empty()) w.push_back(t); return w; }
static bool number(const std::string& t, double& x) { if (t.empty()) return false; char* e; x = strtod(t.c_str(), &e); return *e == 0 && (isdigit((unsigned char) t[0]) || strchr("+-.", t[0]) || t == "nan" || t == "inf"); }
static Settings gen(Rng& r, bool eps) {
    Settings s; if (r.chance(0.75)) s.dec = r.chance(0.1) ? -1 : r.range(0, 17); if (r.coin()) s.fmt = r.coin() ? std::ios_base::scientific : Flags(0); s.debug = r.chance(0.35); s.log = r.coin(); if (eps) s.eps = std::pow(10.0, -r.range(2, 14)); if (r.chance(0.3)) s.atol = r.unit(); return s;
}
static std::string texts(const fl::Engine* e, int k) { return k == 0 ? fl::FllExporter().toString(e) : k == 1 ? fl::FisExporter().toString(e) : k == 2 ? fl::FclExporter().toString(e) : k == 3 ? fl::CppExporter().toString(e) : fl::JavaExporter().toString(e); }
// everything an engine computes, as bits; leaves the engine's state
static std::string compute(fl::Engine* e, const std::vector<std::vector<double> >& xs) {
    std::string s; std::string why;
    for (auto& x : xs) {
        why = caught([&]() { for (size_t i = 0; i < x.size(); ++i) e->getInputVariable(i)->setValue(x[i]); e->process(); }); size_t nl = why.find('\n'); s += "process " + std::string(why.empty() ? "ok" : "fails " + why.substr(3, 12)) + "\n"; (void) nl;
        for (auto o : e->outputVariables()) { s += " " + o->getName() + " " + num(o->getValue()) + " " + num(o->getPreviousValue()); for (auto& a : o->fuzzyOutput()->terms()) s += " " + a.getTerm()->getName() + "/" + num(a.getDegree()); s += "\n"; }
        for (auto b : e->ruleBlocks()) for (auto q : b->rules()) s += " " + num(q->getActivationDegree()) + (q->isTriggered() ? "!" : "") ; s += "\n";
        if (why.empty()) for (auto v : e->variables()) { fl::scalar y = 0; fl::Term* t = nullptr; caught([&]() { t = v->highestMembership(x[0], &y); }); s += " " + (t ? t->getName() : std::string("-")) + " " + num(y); } s += "\n";
    }
    s += "ready " + std::to_string(e->isReady()) + " type " + std::to_string((int) e->type()) + "\n";
    return s;
}
static void run(Ctx& c, Rng& r, long idx) {
    Restore restore; (void) idx; apply(Settings());
    if (!readBack(Settings())) c.violation("defaults", "the settings do not have or take their defaults");
    GenOpts g; g.heavy = 0.04; g.maxRes = 60; g.maxRules = 5; g.locks = 0.3; EngineSpec s = genEngine(r, g); c.note(specStr(s));
    std::vector<std::vector<double> > xs; int n = r.range(2, 4); for (int k = 0; k < n; ++k) { std::vector<double> x; for (auto& v : s.in) x.push_back(r.chance(0.05) ? NaN : genInput(r, v, r.chance(0.1))); if (x.empty()) x.push_back(0.5); xs.push_back(x); }
    std::unique_ptr<fl::Engine> a(buildApi(s)), b(buildApi(s)); if (a->inputVariables().empty()) return;
    std::string before = describe(a.get()), want, wantState; { Mute m; want = compute(a.get(), xs); wantState = describe(a.get()); if (!m.sink.str().empty()) c.violation("output", "the library prints while processing with the default settings: " + m.sink.str().substr(0, 200)); }
    fl::fuzzylite::setDecimals(3); std::string fll = texts(a.get(), 0); std::unique_ptr<fl::Engine> im; bool imt; caught([&]() { Mute m; im.reset(fl::FllImporter().fromString(fll)); }, &imt); std::string imState = im.get() ? describe(im.get()) : "";
    // under other settings
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        Settings q = gen(r, false); apply(q); if (!readBack(q)) c.violation("read-back", "the settings read back differ from those set: " + str(q));
        c.note(str(q) + "\n" + specStr(s)); c.count("settings used"); c.distinct(str(q));
        // the same construction, processing, copying and importing
        std::unique_ptr<fl::Engine> e; std::string got, log; std::unique_ptr<fl::Engine> i2; bool t2; Flags cf = std::cout.flags(); std::streamsize cp = std::cout.precision();
        {
            Mute m; int how = r.below(3); if (how == 0) e.reset(buildApi(s)); else e.reset(how == 1 ? b->clone() : new fl::Engine(*b)); log = m.sink.str();
            got = compute(e.get(), xs); std::string l2 = m.sink.str(); if (!q.debug && !l2.empty()) c.violation("output", "the library prints without debugging: " + l2.substr(0, 200), str(q));
            if (q.debug) { bool active = false; for (auto bl : e->ruleBlocks()) active = active || bl->isEnabled(); if (l2 == log) c.violation("debugging", "nothing is printed while processing in debug mode", str(q)); c.count("debugged"); }
        }
        if (std::cout.flags() != cf || std::cout.precision() != cp) c.violation("stream", "the format of the standard output was changed", str(q));
        { Mute m; caught([&]() { i2.reset(fl::FllImporter().fromString(fll)); }, &t2); }
        if (im.get() && i2.get()) { Settings d; int ref = r.below(5); fl::Engine* p = i2.get();
            // and what it prints
            std::string x, y; bool u, w; Settings full; full.dec = 16; Mute m; caught([&]() { x = texts(p, ref); }, &u); apply(full); caught([&]() { y = texts(p, ref); }, &w); 
            if (u != w) c.violation("export", "exporting " + std::string(u ? "fails" : "succeeds") + " only with " + str(q), specStr(s));
            else if (!u) {
                auto tx = tokens(x), ty = tokens(y); bool ok = tx.size() == ty.size(); size_t j = 0; for (; ok && j < tx.size(); ++j) { double z; if (tx[j] == ty[j]) continue; ok = number(ty[j], z) && ((q.dec >= 0 && cut(z, q.dec)) || tx[j] == printed(z, q.dec, q.fmt)); if (!ok && number(ty[j], z)) { double zz; ok = number(tx[j], zz) && tx[j] == printed(std::nextafter(z, zz), q.dec, q.fmt); } 
                    if (!ok && ref == 3 && tx[j].size() > 2 && tx[j].substr(tx[j].size() - 2) == ".0" && number(ty[j], z)) { std::string u = tx[j].substr(0, tx[j].size() - 2); ok = u == printed(z, q.dec, q.fmt) || u == printed(std::nextafter(z, atof(u.c_str())), q.dec, q.fmt) || (q.dec >= 0 && cut(z, q.dec)); }   // C++ literals of whole numbers
                    c.count("numbers printed"); }
                // terms print their height and rules their weight only if they are not one, whatever the digits
                if (!ok) c.violation("print", "the text with " + str(q) + " differs by more than the format of its numbers: '" + (j && j <= tx.size() ? tx[j - 1] : std::string()) + "' for '" + (j && j <= ty.size() ? ty[j - 1] : std::string()) + "'", x + "\n---\n" + y);
                c.count("texts compared");
            }
        }
        apply(Settings());
        if (got != want) c.violation("compute", "an engine computes something else with " + str(q) + ": " + diffText(want, got), specStr(s));
        if (imt != t2 || (im.get() && i2.get() && describe(i2.get()) != imState)) c.violation("import", "importing yields another engine with " + str(q) + (im.get() && i2.get() ? ": " + diffText(imState, describe(i2.get())) : std::string()), fll);
        std::string st = describe(e.get()); if (st != wantState) c.violation("state", "the engine has another state with " + str(q) + ": " + diffText(wantState, st), specStr(s)); c.count("engines compared");
    }
    // restored
    { Mute m; std::unique_ptr<fl::Engine> e(buildApi(s)); if (describe(e.get()) != before) c.violation("restored", "building after restoring the settings yields another engine: " + diffText(before, describe(e.get()))); if (compute(e.get(), xs) != want) c.violation("restored", "an engine computes something else after restoring the settings"); fl::fuzzylite::setDecimals(3); if (texts(a.get(), 0) != fll) c.violation("restored", "an engine prints something else after restoring the settings"); }
    // numbers
    for (int k = 0; k < 12; ++k) {
        Settings q = gen(r, true); apply(q); double x = r.chance(0.1) ? 0.0 : r.chance(0.1) ? (r.coin() ? NaN : r.coin() ? Inf : -Inf) : r.real(-1, 1) * std::pow(10.0, r.range(-9, 6)); if (q.dec >= 0 && cut(x, q.dec)) continue;
        std::string p = fl::Op::str(x); if (p != printed(x, q.dec, q.fmt)) c.violation("number", "Op::str(" + num(x) + ") is '" + p + "' instead of '" + printed(x, q.dec, q.fmt) + "' with " + str(q));
        int d = r.range(0, 12); if (!cut(x, d)) { p = fl::Op::str(x, d); if (p != printed(x, d, q.fmt)) c.violation("number", "Op::str(" + num(x) + "," + std::to_string(d) + ") is '" + p + "' with " + str(q)); Flags f = r.coin() ? std::ios_base::fixed : std::ios_base::scientific; p = fl::Op::str(x, d, f); if (p != printed(x, d, f)) c.violation("number", "an explicit format is ignored: '" + p + "' with " + str(q)); }
        if (fl::Op::toScalar(num(x)) != x && x == x) c.violation("parse", "parsing a number depends on " + str(q));
        c.count("numbers");
        // comparisons
        double e = q.eps, a1 = r.real(-5, 5), diff = e * (r.coin() ? r.real(0.01, 0.99) : r.real(1.01, 3)) * (r.coin() ? 1 : -1), b1 = a1 + diff; diff = a1 - b1; if (std::fabs(std::fabs(diff) - e) < 1e-3 * e) continue;
        bool eq = std::fabs(diff) < e; if (fl::Op::isEq(a1, b1) != eq || fl::Op::isLt(a1, b1) != (!eq && a1 < b1) || fl::Op::isLE(a1, b1) != (eq || a1 < b1) || fl::Op::isGt(a1, b1) != (!eq && a1 > b1) || fl::Op::isGE(a1, b1) != (eq || a1 > b1)) c.violation("comparison", "comparisons of " + num(a1) + " and " + num(b1) + " do not follow the tolerance " + num(e));
        double e2 = e * (r.coin() ? 10 : 0.1); eq = std::fabs(diff) < e2; if (std::fabs(std::fabs(diff) - e2) > 1e-3 * e2 && (fl::Op::isEq(a1, b1, e2) != eq || fl::Op::isLt(a1, b1, e2) != (!eq && a1 < b1) || fl::Op::isGE(a1, b1, e2) != (eq || a1 > b1))) c.violation("comparison", "an explicit tolerance is ignored by the comparisons of " + num(a1) + " and " + num(b1) + ": " + num(e2));
        c.count("comparisons");
        fl::Benchmark bm; if (bm.getTolerance() != e) c.violation("tolerance", "a benchmark does not take the tolerance in effect");
    }
    // the tolerance changes no membership away from the points that terms compare with
    for (int k = 0; k < 6; ++k) {
        apply(Settings()); TermSpec ts = genShape(r, SHAPES[r.below(18)], -3, 3, "t", false); std::unique_ptr<fl::Term> t(buildTerm(ts)); if (!t.get()) continue; double x = r.dec(-3, 3, 6) + 1e-4, h = 0; bool near = false; std::vector<double> v = ts.p; for (double z : v) near = near || std::fabs(z - x) < 0.03; for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) near = near || (i != j && std::fabs(v[i] - v[j]) < 0.03) || std::fabs(0.5 * (v[i] + v[j]) - x) < 0.03 || std::fabs(v[i] - v[j] - x) < 0.03 || std::fabs(v[i] + v[j] - x) < 0.03; for (double z : v) near = near || std::fabs(z) < 0.03; if (near) continue;
        bool t1, t2; double m1 = 0, m2 = 0; caught([&]() { m1 = t->membership(x); }, &t1); fl::fuzzylite::setMachEps(std::pow(10.0, -r.range(3, 14))); caught([&]() { m2 = t->membership(x); }, &t2); h = fl::fuzzylite::macheps(); fl::fuzzylite::setMachEps(1e-6);
        if (t1 != t2 || !same(m1, m2)) c.violation("tolerance", "the membership of " + num(x) + " in " + ts.cls + " is " + num(m2) + " with tolerance " + num(h) + " but " + num(m1) + " otherwise", paramText(ts, 3)); c.count("memberships under tolerances");
    }
    // engines under other tolerances, changed while they live: the comparisons inside activations, triggers and norms follow them
    if (r.chance(0.6)) {
        apply(Settings()); GenOpts h; h.heavy = 0.0; h.maxRes = 30; h.maxRules = 6; h.functions = false; EngineSpec z = genEngine(r, h); std::unique_ptr<fl::Engine> e(buildApi(z)); Dual m(z); std::string hist;
        for (int k = 0; k < 3; ++k) {
            double eps = std::pow(10.0, -r.range(4, 9)); fl::fuzzylite::setMachEps(eps); MACHEPS = eps; hist += "tolerance " + num(eps) + ": ";
            for (size_t bi = 0; bi < z.blocks.size(); ++bi) { BlockSpec& b = z.blocks[bi]; bool near = r.coin();
                if (near) { b.act = pickS(r, {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"}); b.n = r.range(1, 4); b.thr = r.chance(0.3) ? 0.0 : eps * r.pick(std::vector<double>{0.3, 1.6, 5, 20}); b.cmp = pickS(r, {"<", "<=", "==", "!=", ">=", ">"}); e->getRuleBlock(bi)->setActivation(buildActivation(b)); }
                for (size_t i = 0; i < b.rules.size(); ++i) if (near && b.rules[i].loaded && r.chance(0.6)) { b.rules[i].weight = eps * r.pick(std::vector<double>{0.3, 0.7, 1.5, 3, 10, 40}); e->getRuleBlock(bi)->getRule(i)->setWeight(b.rules[i].weight); } }
            for (size_t i = 0; i < z.in.size(); ++i) { double x = genInput(r, z.in[i], false); e->getInputVariable(i)->setValue(x); m.setInput(i, x); hist += num(x) + " "; }
            c.note(hist + specStr(z)); Mute mu; std::string w = caught([&]() { e->process(); }); if (!w.empty()) break; m.process(e.get());
            if (m.fragile()) { c.count("steps too close to call"); m.resync(e.get()); continue; }
            std::string key, d = m.compare(e.get(), key); c.count("engines under tolerances"); if (!d.empty() && key.compare(0, 3, "kf:")) { c.violation("tolerance:" + key, "with a tolerance of " + num(eps) + ": " + d, hist + specStr(z)); break; }
        }
        MACHEPS = 1e-6; apply(Settings());
    }
    // logging
    {
        apply(Settings()); bool log = r.coin(); fl::fuzzylite::setLogging(log); std::string out; bool t; { Mute m; std::unique_ptr<fl::Engine> e; caught([&]() { e.reset(fl::FllImporter().fromString("Engine: e\nInputVariable: a\n  range: 0 1\n  term: t Ramp 0 1\nOutputVariable: o\n  range: 0 1\n  term: t Ramp 0 1\nRuleBlock: \n  rule: if a is t then o is unknown\n  rule: if a is t then o is t\n")); }, &t); out = m.sink.str(); if (t || e->getRuleBlock(0)->getRule(0)->isLoaded() || !e->getRuleBlock(0)->getRule(1)->isLoaded()) c.violation("logging", "importing depends on logging"); }
        if (log == out.empty()) c.violation("logging", log ? "a rule that cannot be loaded is not logged" : "the library logs although logging is off: " + out.substr(0, 200)); c.count("logs");
    }
    c.distinct(want); if (c.wantSample()) c.sample(specStr(s) + want);
}
Property vf::PROPERTY("P38", 2500, 120000, run, "An engine is built, copied, imported, processed and exported with the default settings and then with 1-3 random combinations of decimals (-1 to 17), fixed, scientific or general format, debugging and logging; everything computed is compared bit by bit, texts token by token with the required format of every number, standard output with what debugging and logging permit; comparisons and memberships are checked under random tolerances; everything is repeated after restoring.",
    {{"settings used", 3000}, {"engines compared", 3000}, {"debugged", 900}, {"texts compared", 1500}, {"numbers printed", 20000}, {"numbers", 15000}, {"comparisons", 15000}, {"memberships under tolerances", 3000}, {"engines under tolerances", 2500}, {"logs", 2400}});
