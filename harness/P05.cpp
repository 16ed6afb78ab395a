#include "model.hpp"
using namespace vf;
// small engines whose degrees lie on a decimal grid, so that ties and degrees equal to the threshold are common
static EngineSpec grid(Rng& r) {
    EngineSpec e; e.name = "act"; int ni = r.range(1, 3);
    for (int i = 0; i < ni; ++i) {
        VarSpec v; v.name = "in" + std::to_string(i); v.lo = 0; v.hi = 1; v.enabled = !r.chance(0.05);
        auto add = [&](const char* n, const char* c, std::vector<double> p) { TermSpec t; t.name = n; t.cls = c; t.p = p; v.terms.push_back(t); };
        add("up", "Ramp", {0, 1}); add("down", "Ramp", {1, 0}); add("mid", "Triangle", {0, 0.5, 1}); add("box", "Rectangle", {0.25, 0.75});
        e.in.push_back(v);
    }
    int no = r.range(1, 2);
    for (int i = 0; i < no; ++i) {
        VarSpec v; v.name = "out" + std::to_string(i); v.lo = 0; v.hi = 1; v.defuzz = r.coin() ? "WeightedAverage" : "WeightedSum"; v.wtype = "TakagiSugeno"; if (r.coin()) v.agg = SNORMS[r.below(9)];
        for (int k = 0; k < 3; ++k) { TermSpec t; t.name = "c" + std::to_string(k); t.cls = "Constant"; t.p.push_back(k); v.terms.push_back(t); }
        e.out.push_back(v);
    }
    int nb = r.chance(0.75) ? 1 : 2;
    for (int b = 0; b < nb; ++b) {
        BlockSpec k; k.name = "b"; k.conj = r.coin() ? "Minimum" : TNORMS[r.below(7)]; k.disj = r.coin() ? "Maximum" : SNORMS[r.below(9)]; k.impl = TNORMS[r.below(7)];
        int nr = r.chance(0.05) ? 0 : r.range(1, r.chance(0.2) ? 40 : 9);
        for (int q = 0; q < nr; ++q) {
            RuleSpec s; auto prop = [&]() { EX x(new Expr); x->p.out = r.chance(0.1); x->p.var = r.below(x->p.out ? no : ni); x->p.term = r.below(x->p.out ? 3 : 4); if (r.chance(0.1)) x->p.hedges.push_back(HEDGES[r.below(6)]); if (x->p.hedges.size() && x->p.hedges[0] == "any") x->p.term = -1; return x; };
            s.ante = prop(); if (r.chance(0.25)) { EX x(new Expr); x->k = r.coin() ? Expr::And : Expr::Or; x->l = s.ante; x->r = prop(); s.ante = x; }
            int nc = r.chance(0.8) ? 1 : 2;
            for (int i = 0; i < nc; ++i) { Prop p; p.out = true; p.var = r.below(no); p.term = r.below(3); s.cons.push_back(p); }
            if (r.chance(0.3)) s.weight = r.below(11) / 10.0;
            s.enabled = !r.chance(0.15); s.loaded = !r.chance(0.1);
            k.rules.push_back(s);
        }
        e.blocks.push_back(k);
    }
    for (auto& k : e.blocks) for (auto& q : k.rules) q.text = ruleText(e, q, nullptr);
    return e;
}
static void method(Rng& r, BlockSpec& k) {
    k.act = pickS(r, {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"});
    int nr = (int) k.rules.size(); k.n = r.chance(0.1) ? r.range(-1, 0) : r.range(1, nr + 2); if (r.coin()) k.n = r.range(1, 4);
    k.thr = r.chance(0.3) ? 0.0 : r.below(11) / 10.0; if (r.chance(0.05)) k.thr = r.pick(std::vector<double>{-0.5, 1.5, 1e-3}); k.cmp = pickS(r, {"<", "<=", "==", "!=", ">=", ">"});
}
static fl::Activation* make(Rng& r, const BlockSpec& b) {
    if (r.coin()) return buildActivation(b);
    std::unique_ptr<fl::Activation> a(fl::FactoryManager::instance()->activation()->constructObject(b.act));
    if (b.act == "First" || b.act == "Last") a->configure(std::to_string(b.n) + " " + dec3(b.thr));
    if (b.act == "Highest" || b.act == "Lowest") a->configure(std::to_string(b.n));
    if (b.act == "Threshold") a->configure(b.cmp + " " + dec3(b.thr));
    return a.release();
}
static void run(Ctx& c, Rng& r, long) {
    EngineSpec s; bool gridded = r.chance(0.75);
    if (gridded) s = grid(r); else { GenOpts o; o.kind = 2; o.maxRules = 20; o.unloaded = true; o.functions = false; s = genEngine(r, o); for (auto& k : s.blocks) for (auto& q : k.rules) { for (auto& p : q.cons) p.hedges.clear(); q.text = ruleText(s, q, nullptr); } }
    for (auto& k : s.blocks) method(r, k);
    std::unique_ptr<fl::Engine> e(buildApi(s)); Model m(s);
    c.note(specStr(s)); std::string hist; int steps = r.range(3, 8);
    for (int k = 0; k < steps; ++k) {
        size_t bi = r.below((int) s.blocks.size()); BlockSpec& b = s.blocks[bi]; fl::RuleBlock* rb = e->getRuleBlock(bi);
        // the same inputs again, with a threshold that is what a rule had (up to rounding: 0.1 * 0.3 is not 0.03)
        bool again = k && r.chance(0.4);
        for (size_t i = 0; i < s.in.size() && !again; ++i) { double x = gridded ? (r.chance(0.03) ? NaN : r.below(21) / 20.0) : genInput(r, s.in[i], r.chance(0.1)); e->getInputVariable(i)->setValue(x); m.setInput(i, x); }
        if (again || (k && r.coin())) { method(r, b); if (again && !b.rules.empty()) { double g = m.rs[bi][r.below((int) b.rules.size())].deg; g = std::round(g * 1000) / 1000; if (fl::Op::isFinite(g)) { b.thr = g; if (r.coin()) b.act = pickS(r, {"Threshold", "Threshold", "First", "Last"}); } } rb->setActivation(make(r, b)); hist += "block " + std::to_string(bi) + " activation " + b.act + "; "; }
        if (r.chance(0.03)) { b.act = ""; rb->setActivation(nullptr); }
        if (!b.rules.empty() && r.chance(0.4)) {
            int i = r.below((int) b.rules.size()); RuleSpec& q = b.rules[i]; fl::Rule* u = rb->getRule(i);
            switch (r.below(4)) {
                case 0: q.enabled = !q.enabled; u->setEnabled(q.enabled); hist += "rule " + std::to_string(i) + " enabled=" + std::to_string(q.enabled) + "; "; break;
                case 1: q.loaded = false; u->unload(); m.rs[bi][i] = Model::RS(); hist += "rule " + std::to_string(i) + " unloaded; "; break;
                case 2: q.loaded = true; q.enabled = true; u->load(e.get()); q.weight = u->getWeight(); m.rs[bi][i] = Model::RS(); hist += "rule " + std::to_string(i) + " loaded; "; break;
                default: q.weight = r.below(11) / 10.0; u->setWeight(q.weight); hist += "rule " + std::to_string(i) + " weight " + num(q.weight) + "; ";
            }
        }
        hist += vecStr(m.in) + " "; bool direct = r.chance(0.3); std::string ex;
        if (direct) {
            // activate one block by itself, possibly twice: the rules must start deactivated, the conclusions accumulate
            m.fragile = false; m.bad.clear(); int times = r.range(1, 2); hist += "activate block " + std::to_string(bi) + " x" + std::to_string(times) + "; "; c.note(specStr(s) + hist);
            for (int t = 0; t < times; ++t) { ex = caught([&]() { rb->activate(); }); if (!ex.empty()) break; m.activateBlock(bi, e.get()); c.count("direct activations"); }
        } else { hist += "process; "; c.note(specStr(s) + hist); ex = caught([&]() { e->process(); }); if (ex.empty()) m.process(e.get()); }
        if (!ex.empty()) { c.violation("throws", "activating fails: " + ex, specStr(s) + hist); return; }
        if (b.act.empty()) { if (!direct && !b.enabled) ; else if (!rb->getActivation() || rb->getActivation()->className() != "General") c.violation("default-activation", "a block without activation method does not get General", specStr(s) + hist); if (rb->getActivation()) b.act = "General"; }
        if (m.fragile) { c.count("steps too close to call"); m.resync(e.get()); continue; }
        std::string key, d;
        if (direct) for (auto& o : m.out) (void) o;
        d = m.compare(e.get(), key);
        if (!d.empty()) { c.violation(key, d, specStr(s) + hist); return; }
        for (size_t q = 0; q < s.blocks.size(); ++q) {
            long trig = 0, pos = 0, ties = 0, eq = 0; std::set<double> seen; const BlockSpec& z = s.blocks[q];
            for (size_t i = 0; i < m.rs[q].size(); ++i) { double g = m.rs[q][i].deg; trig += m.rs[q][i].trig; pos += g > 0; if (g > 0 && !seen.insert(g).second) ++ties; if (mEq(g, z.thr) && z.rules[i].loaded) ++eq;
                fl::Rule* u = e->getRuleBlock(q)->getRule(i); if (!z.rules[i].loaded && (u->isTriggered() || u->getActivationDegree() != 0)) c.violation("unloaded-fires", "an unloaded rule has degree " + num(u->getActivationDegree()), specStr(s) + hist); }
            const std::string& a = z.act;
            c.count("activations of " + (a.empty() ? std::string("General") : a)); c.count("rules triggered", trig);
            if (trig < pos && trig) c.count("activations selecting some positive rules but not all");
            if (ties && (a == "Highest" || a == "Lowest")) c.count("activations with ties (Highest, Lowest)");
            if (eq && (a == "First" || a == "Last" || a == "Threshold")) c.count("activations with a degree equal to the threshold");
            if (trig) { std::string h = a + std::to_string(z.n) + num(z.thr) + z.cmp; for (auto& x : m.rs[q]) h += num(x.deg) + (x.trig ? "T" : "-"); c.distinct(h); }
        }
    }
    if (c.wantSample()) c.sample(specStr(s) + hist);
}
Property vf::PROPERTY("P05", 14000, 400000, run, "rule blocks with degrees on a decimal grid (ties, degrees equal to thresholds) or random engines; methods switched, rules disabled, unloaded, reweighted between steps, activated through the engine or directly; degrees, trigger flags and contributions compared with the definitions; distinct counts method+degrees+selection with a triggered rule",
    {{"activations selecting some positive rules but not all", 2000}, {"activations with ties (Highest, Lowest)", 500}, {"activations with a degree equal to the threshold", 500}, {"direct activations", 2000}});
