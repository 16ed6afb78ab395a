#include "model.hpp"
using namespace vf;
// a defuzzifier whose next result is scripted
struct Script : fl::Defuzzifier {
    double next; bool fail; mutable long calls; mutable size_t seen; mutable double lo, hi;
    Script() : next(NaN), fail(false), calls(0), seen(0), lo(NaN), hi(NaN) {}
    std::string className() const override { return "Script"; }
    Script* clone() const override { return new Script(*this); }
    fl::scalar defuzzify(const fl::Term* t, fl::scalar a, fl::scalar b) const override { ++calls; lo = a; hi = b; seen = static_cast<const fl::Aggregated*>(t)->numberOfTerms(); if (fail) throw fl::Exception("scripted failure"); return next; }
};
struct State { double value = NaN, prev = NaN, lo = -Inf, hi = Inf, def = NaN; bool en = true, lockP = false, lockR = false; size_t fuzzy = 0;
    double clamp(double x) const { return x == x && lockR ? (x < lo ? lo : x > hi ? hi : x) : x; } };
static double scriptValue(Rng& r, const State& s) { double lo = std::isfinite(s.lo) ? s.lo : -5, hi = std::isfinite(s.hi) ? s.hi : 5; return r.chance(0.35) ? NaN : r.chance(0.08) ? (r.coin() ? Inf : -Inf) : r.chance(0.1) ? (r.coin() ? lo : hi) : r.chance(0.05) ? (r.coin() ? 0.0 : 1e9) : r.real(lo - 2, hi + 2); }
static void run(Ctx& c, Rng& r, long idx) {
    std::string hist; long steps = 0;
    if (idx % 4 != 3) {
        // one to three outputs with scripted defuzzifiers, driven directly and through an engine
        fl::Engine e("e"); fl::InputVariable* in = new fl::InputVariable("i", 0, 1); e.addInputVariable(in); in->addTerm(new fl::Ramp("t", 0, 1));
        int n = r.range(1, 3); std::vector<State> st(n); std::vector<fl::OutputVariable*> o; std::vector<Script*> sc; std::string txt = "if i is t then ";
        for (int k = 0; k < n; ++k) { fl::OutputVariable* v = new fl::OutputVariable("o" + std::to_string(k)); v->addTerm(new fl::Constant("a", k)); e.addOutputVariable(v); Script* s = new Script; v->setDefuzzifier(s); sc.push_back(s); o.push_back(v); txt += (k ? " and " : "") + v->getName() + " is a"; }
        fl::RuleBlock* rb = new fl::RuleBlock("r"); e.addRuleBlock(rb); rb->addRule(fl::Rule::parse(txt, &e));
        double iv = NaN;
        int len = r.range(5, 40);
        for (int k = 0; k < len; ++k) {
            int j = r.below(n); State& s = st[j]; fl::OutputVariable* v = o[j]; std::string what; int op = r.below(16); what = v->getName() + ".";
            if (op >= 12) op = r.chance(0.7) ? 0 : 1;
            if (op == 0) {   // process everything
                what = "process["; int failing = r.chance(0.05) ? r.below(n) : -1;
                if (r.coin()) { iv = r.chance(0.3) ? 0.0 : r.chance(0.2) ? NaN : r.unit(); in->setValue(iv); }
                size_t act = iv == iv && mGt(iv, 0.0) ? 1 : 0; bool stop = false; std::vector<long> calls;
                for (int q = 0; q < n; ++q) { sc[q]->next = scriptValue(r, st[q]); sc[q]->fail = q == failing; calls.push_back(sc[q]->calls); what += num(sc[q]->next) + (q == failing ? "!" : "") + " "; }
                hist += what + "]; "; c.note(hist); bool threw; std::string ex = caught([&]() { e.process(); }, &threw);
                for (int q = 0; q < n; ++q) {
                    State& z = st[q]; z.fuzzy = z.en ? act : 0;
                    if (!z.en || stop) { if (sc[q]->calls != calls[q] && !stop) c.violation("disabled-defuzzified", "a disabled output is defuzzified", hist); continue; }
                    if (q == failing) { stop = true; continue; }
                    if (sc[q]->calls != calls[q] + 1) c.violation("defuzzify-count", "processing defuzzifies an enabled output " + std::to_string(sc[q]->calls - calls[q]) + " times", hist);
                    if (sc[q]->seen != z.fuzzy) c.violation("stale-fuzzy", "the defuzzifier sees " + std::to_string(sc[q]->seen) + " activated terms instead of " + std::to_string(z.fuzzy), hist);
                    if (!same(sc[q]->lo, z.lo) || !same(sc[q]->hi, z.hi)) c.violation("defuzzify-range", "the defuzzifier is given another range", hist);
                    double x = sc[q]->next; if (x != x && z.lockP) { x = z.prev; c.count("previous values taken"); } if (x != x) { x = z.def; c.count("defaults taken"); } z.prev = z.value; z.value = z.clamp(x); if (z.value != x && x == x) c.count("clamped results");
                    ++steps;
                }
                if (threw != stop) c.violation("exception", threw ? "processing fails: " + ex : "a failing defuzzifier is not reported", hist);
            } else {
                bool threw = false; std::string ex;
                switch (op) {
                    case 1: { sc[j]->next = scriptValue(r, s); sc[j]->fail = r.chance(0.05); bool none = r.chance(0.04); if (none) { v->setDefuzzifier(nullptr); sc[j] = nullptr; } what += "defuzzify " + (none ? std::string("without defuzzifier") : num(sc[j]->next) + (sc[j]->fail ? "!" : ""));
                        ex = caught([&]() { v->defuzzify(); }, &threw); bool want = s.en && (none || sc[j]->fail); if (threw != want) c.violation("exception", threw ? "defuzzifying fails: " + ex : "a missing or failing defuzzifier is not reported", hist + what);
                        if (s.en && !want) { double x = sc[j]->next; if (x != x && s.lockP) { x = s.prev; c.count("previous values taken"); } if (x != x) { x = s.def; c.count("defaults taken"); } s.prev = s.value; s.value = s.clamp(x); ++steps; }
                        if (none) { sc[j] = new Script; v->setDefuzzifier(sc[j]); c.count("missing defuzzifiers"); } break; }
                    case 2: { double x = scriptValue(r, s); v->setValue(x); s.value = s.clamp(x); what += "setValue " + num(x); break; }
                    case 3: v->clear(); s.value = s.prev = NaN; s.fuzzy = 0; what += "clear"; c.count("clears"); break;
                    case 4: s.en = !s.en; v->setEnabled(s.en); what += "enabled=" + std::to_string(s.en); break;
                    case 5: s.lockP = !s.lockP; v->setLockPreviousValue(s.lockP); what += "lock-previous=" + std::to_string(s.lockP); break;
                    case 6: s.lockR = !s.lockR; v->setLockValueInRange(s.lockR); what += "lock-range=" + std::to_string(s.lockR); break;
                    case 7: s.lo = r.dec(-5, 0, 1); s.hi = s.lo + r.dec(0, 5, 1); if (r.chance(0.1)) s.lo = -Inf; if (r.coin()) v->setRange(s.lo, s.hi); else { v->setMinimum(s.lo); v->setMaximum(s.hi); } what += "range " + num(s.lo) + " " + num(s.hi); break;
                    case 8: s.def = r.chance(0.3) ? NaN : r.real(-8, 8); v->setDefaultValue(s.def); what += "default " + num(s.def); break;
                    case 9: { double x = r.chance(0.3) ? NaN : r.real(-8, 8); v->setPreviousValue(x); s.prev = x; what += "setPreviousValue " + num(x); break; }
                    case 10: e.restart(); iv = NaN; for (auto& z : st) { z.value = z.prev = NaN; z.fuzzy = 0; } what = "restart"; c.count("restarts"); break;
                    default: { v->fuzzyOutput()->addTerm(v->getTerm(0), 0.5, nullptr); ++s.fuzzy; what += "fuzzyOutput add"; }
                }
                hist += what + "; ";
            }
            for (int q = 0; q < n; ++q) {
                fl::OutputVariable* x = o[q]; const State& z = st[q]; std::string d;
                if (!same(x->getValue(), z.value)) d = "value " + num(x->getValue()) + " instead of " + num(z.value);
                else if (!same(x->getPreviousValue(), z.prev)) d = "previous value " + num(x->getPreviousValue()) + " instead of " + num(z.prev);
                else if (x->isEnabled() != z.en || x->isLockPreviousValue() != z.lockP || x->isLockValueInRange() != z.lockR || !same(x->getDefaultValue(), z.def) || !same(x->getMinimum(), z.lo) || !same(x->getMaximum(), z.hi)) d = "a setting differs from what was set";
                else if (x->fuzzyOutput()->numberOfTerms() != z.fuzzy) d = std::to_string(x->fuzzyOutput()->numberOfTerms()) + " activated terms instead of " + std::to_string(z.fuzzy);
                c.count("states compared");
                if (!d.empty()) { c.violation("state", "after " + what + ": " + x->getName() + " has " + d, hist); return; }
            }
        }
        c.distinct(hist);
    } else {
        // the same policy on real engines whose rules fire only sometimes
        GenOpts g; g.disabled = 0.15; g.locks = 0.6; g.maxRules = 3; g.functions = false; g.maxRes = 60; EngineSpec s = genEngine(r, g); for (auto& b : s.blocks) for (auto& q : b.rules) { for (auto& p : q.cons) p.hedges.clear(); q.text = ruleText(s, q, nullptr); }
        std::unique_ptr<fl::Engine> e(buildApi(s)); Model m(s);
        for (int k = 0; k < 10; ++k) {
            for (size_t i = 0; i < s.in.size(); ++i) { double x = r.chance(0.25) ? NaN : genInput(r, s.in[i], r.chance(0.1)); e->getInputVariable(i)->setValue(x); m.setInput(i, x); }
            if (r.chance(0.2)) { int i = r.below((int) s.out.size()); VarSpec& v = s.out[i]; fl::OutputVariable* x = e->getOutputVariable(i); switch (r.below(4)) { case 0: v.enabled = !v.enabled; x->setEnabled(v.enabled); break; case 1: v.lockPrev = !v.lockPrev; x->setLockPreviousValue(v.lockPrev); break; case 2: v.lockRange = !v.lockRange; x->setLockValueInRange(v.lockRange); break; default: v.def = r.coin() ? NaN : r.dec(v.lo - 1, v.hi + 1); x->setDefaultValue(v.def); } }
            if (r.chance(0.05)) { e->restart(); m.restart(); }
            c.note(specStr(s) + vecStr(m.in)); e->process(); m.process(e.get()); hist += vecStr(m.in) + "; ";
            if (m.fragile) { m.resync(e.get()); continue; }
            std::string key, d = m.compare(e.get(), key); if (!d.empty()) { c.violation(key, d, hist + "\n" + specStr(s)); return; }
            c.count("engine steps compared"); ++steps;
        }
        c.distinct(specStr(s) + hist);
    }
    c.count("defuzzifications", steps); if (c.wantSample()) c.sample(hist);
}
Property vf::PROPERTY("P16", 30000, 900000, run, "histories of processing, defuzzification with scripted results (numbers, NaN, infinities, failures), setters, clears and restarts on one to three outputs, the complete state of every output compared with the policy after each step; and real engines with policies toggled between steps; distinct counts histories",
    {{"states compared", 100000}, {"previous values taken", 3000}, {"defaults taken", 5000}, {"clamped results", 2000}, {"restarts", 1000}, {"engine steps compared", 5000}});
