#include "model.hpp"
using namespace vf;
static void needs(const EX& x, bool& a, bool& o) { if (x->k == Expr::P) return; (x->k == Expr::And ? a : o) = true; needs(x->l, a, o); needs(x->r, a, o); }
static std::string state(const fl::Engine* e) { std::string s = fl::FllExporter().toString(e) + outputsStr(e); for (size_t i = 0; i < e->numberOfInputVariables(); ++i) s += num(e->getInputVariable(i)->getValue()) + " "; for (size_t o = 0; o < e->numberOfOutputVariables(); ++o) s += e->getOutputVariable(o)->fuzzyOutput()->toString(); for (size_t b = 0; b < e->numberOfRuleBlocks(); ++b) for (size_t i = 0; i < e->getRuleBlock(b)->numberOfRules(); ++i) { fl::Rule* u = e->getRuleBlock(b)->getRule(i); s += num(u->getActivationDegree()) + (u->isTriggered() ? "T" : "") + (u->isLoaded() ? "L" : "") + (u->isEnabled() ? "E " : " "); } return s; }
static void run(Ctx& c, Rng& r, long idx) {
    GenOpts o; o.large = 0.02; o.maxRes = 60; o.descriptions = false; o.functions = idx % 3 == 0; o.unloaded = r.chance(0.2); o.outAnte = 0.15; o.nest = 0.5; o.maxDepth = 4; o.kind = idx % 6; o.disabled = r.coin() ? 0 : 0.12; o.infiniteRange = r.chance(0.1);
    EngineSpec s = genEngine(r, o); Rng rr(r.next());
    for (size_t b = 0; b < s.blocks.size(); ++b) { s.blocks[b].name = "block" + std::to_string(b); for (auto& q : s.blocks[b].rules) { q.text = ruleText(s, q, &rr); if (rr.chance(0.3)) for (size_t k = 1; k < q.text.size(); ++k) if (q.text[k] == ' ' && rr.chance(0.3)) q.text[k] = '\t'; if (rr.chance(0.1)) q.text += " # and or then"; if (rr.chance(0.3)) { size_t p; while ((p = q.text.find("( ")) != std::string::npos) q.text.erase(p + 1, 1); while ((p = q.text.find(" )")) != std::string::npos) q.text.erase(p, 1); size_t th = q.text.find("then"); for (size_t k = 3; k < th && k < q.text.size(); ++k) if (q.text[k] == ' ' && ((q.text[k - 1] == ')' && k + 1 < th) || (q.text[k + 1] == '(' && k > 2)) && rr.coin()) { q.text.erase(k, 1); --th; } } } }
    // remove parts
    int drops = r.chance(0.35) ? 0 : r.range(1, 3);
    std::vector<std::string> dropped; std::string gone; bool noTerms = false;
    for (int k = 0; k < drops; ++k) switch (r.below(6)) {
        case 0: s.blocks[r.below((int) s.blocks.size())].conj = ""; break;
        case 1: s.blocks[r.below((int) s.blocks.size())].disj = ""; break;
        case 2: s.blocks[r.below((int) s.blocks.size())].impl = ""; break;
        case 3: s.out[r.below((int) s.out.size())].agg = ""; break;
        case 4: s.out[r.below((int) s.out.size())].defuzz = ""; break;
        default: s.blocks[r.below((int) s.blocks.size())].act = "";
    }
    std::unique_ptr<fl::Engine> e;
    { std::string ex = caught([&]() { e.reset(buildApi(s)); }); if (!ex.empty()) { c.violation("build", "valid rules are rejected: " + ex, specStr(s)); return; } }
    std::unique_ptr<fl::OutputVariable> spareO; std::vector<std::unique_ptr<fl::InputVariable> > spareI; std::unique_ptr<fl::RuleBlock> spareB;
    std::vector<std::pair<std::string, std::string> > miss;   // must be reported: name of the part, what is missing
    int structural = r.chance(0.15) ? r.below(5) : -1;
    if (structural == 0) { for (auto& b : s.blocks) for (auto& q : b.rules) { q.loaded = false; } e->getRuleBlock(0); for (size_t b = 0; b < s.blocks.size(); ++b) e->getRuleBlock(b)->unloadRules(); while (e->numberOfInputVariables()) spareI.emplace_back(e->removeInputVariable(0)); s.in.clear(); miss.push_back({e->getName(), "input variable"}); }
    if (structural == 1) { s.out.push_back(VarSpec()); s.out.back().name = "bare"; s.out.back().defuzz = "Centroid"; s.out.back().agg = "Maximum"; fl::OutputVariable* v = new fl::OutputVariable("bare", 0, 1); v->setDefuzzifier(new fl::Centroid(50)); v->setAggregation(new fl::Maximum); e->addOutputVariable(v); miss.push_back({"bare", "terms"}); noTerms = true; }
    if (structural == 2) { BlockSpec k; k.name = "norules"; e->addRuleBlock(new fl::RuleBlock("norules")); s.blocks.push_back(k); miss.push_back({"norules", "rules"}); }
    if (structural == 3) { while (e->numberOfRuleBlocks()) delete e->removeRuleBlock(0); s.blocks.clear(); miss.push_back({e->getName(), "rule block"}); }
    if (structural == 4) { while (e->numberOfRuleBlocks()) delete e->removeRuleBlock(0); s.blocks.clear(); while (e->numberOfOutputVariables()) delete e->removeOutputVariable(0); s.out.clear(); miss.push_back({e->getName(), "output variable"}); miss.push_back({e->getName(), "rule block"}); }
    bool allLoaded = true, allEnabled = true;
    std::vector<std::pair<std::string, std::string> > soft;   // missing, but in a disabled part: either answer
    for (size_t b = 0; b < s.blocks.size(); ++b) {
        const BlockSpec& k = s.blocks[b]; bool a = false, d = false, im = false, imAny = false; allEnabled = allEnabled && k.enabled;
        for (auto& q : k.rules) { if (!q.loaded) { allLoaded = false; continue; } needs(q.ante, a, d); for (auto& p : q.cons) if (isIntegral(s.out[p.var].defuzz)) { imAny = true; if (s.out[p.var].enabled) im = true; } }
        auto& m = k.enabled ? miss : soft;
        if (a && k.conj.empty()) m.push_back({k.name, "conjunction"}); if (d && k.disj.empty()) m.push_back({k.name, "disjunction"}); if (k.impl.empty()) { if (im) m.push_back({k.name, "implication"}); else if (imAny) soft.push_back({k.name, "implication"}); }
    }
    for (auto& v : s.out) { auto& m = v.enabled ? miss : soft; if (v.defuzz.empty()) m.push_back({v.name, "defuzzifier"}); if (isIntegral(v.defuzz) && v.agg.empty()) m.push_back({v.name, "aggregation"}); }
    std::string desc = specStr(s); c.note(desc);
    if (r.coin() && miss.empty()) { for (size_t i = 0; i < s.in.size(); ++i) e->getInputVariable(i)->setValue(genInput(r, s.in[i], false)); try { e->process(); } catch (std::exception&) {} }
    std::string before = state(e.get()), st = "garbage"; bool ready = e->isReady(&st), ready2 = e->isReady(); std::string after = state(e.get());
    if (before != after) c.violation("changes-engine", "asking whether the engine is ready changes it:\n" + before + "\n" + after);
    if (ready != ready2) c.violation("status-pointer", "the answer depends on whether the status is wanted", desc);
    if (ready != st.empty()) c.violation("status", std::string("an engine that is ") + (ready ? "ready has the status '" : "not ready has the status '") + st + "'", desc);
    c.count(ready ? "engines ready" : "engines not ready"); c.distinct(desc);
    for (auto& m : miss) {
        bool named = false; std::istringstream is(st); std::string l; while (std::getline(is, l)) if (l.find("<" + m.first + ">") != std::string::npos && l.find(m.second) != std::string::npos) named = true;
        c.count("missing: " + m.second); if (!named) c.violation("unreported:" + m.second, "the missing " + m.second + " of <" + m.first + "> is not reported; ready=" + (ready ? "true" : "false") + " status: " + st, desc);
    }
    if (!ready && miss.empty() && soft.empty() && allLoaded) c.violation("over-reported", "an engine that lacks nothing is reported not ready: " + st, desc);
    if (ready && allLoaded) for (int k = 0; k < 4; ++k) {
        for (size_t i = 0; i < s.in.size(); ++i) e->getInputVariable(i)->setValue(genInput(r, s.in[i], r.chance(0.3)));
        std::string ex = caught([&]() { e->process(); }); c.count("ready engines processed");
        if (!ex.empty()) { c.violation("ready-fails", "an engine reported ready fails to process: " + ex, desc); return; }
    }
    if (!ready && !miss.empty() && structural < 0 && allLoaded) {   // the report is true: processing with inputs that fire something fails, or the part was not reached
        bool failed = false; for (int k = 0; k < 6 && !failed; ++k) { for (size_t i = 0; i < s.in.size(); ++i) e->getInputVariable(i)->setValue(genInput(r, s.in[i], false)); bool threw; std::string ex = caught([&]() { e->process(); }, &threw); if (threw) { failed = true; if (ex.compare(0, 3, "fl:")) c.violation("exception", "processing an incomplete engine throws " + ex, desc); } }
        c.count(failed ? "incomplete engines that fail with an exception" : "incomplete engines that did not reach the missing part");
    }
    (void) noTerms; if (c.wantSample() && !ready) c.sample(desc + st);
}
Property vf::PROPERTY("P32", 20000, 500000, run, "random engines with operators, defuzzifiers, terms, rules, blocks or variables removed and rule texts in many layouts; the readiness answer compared with what processing needs, engines reported ready processed with hostile inputs; distinct counts engines",
    {{"engines ready", 3000}, {"engines not ready", 3000}, {"ready engines processed", 10000}, {"missing: conjunction", 300}, {"missing: disjunction", 200}, {"missing: implication", 300}, {"missing: aggregation", 300}, {"missing: defuzzifier", 300}});
