#include "model.hpp"
using namespace vf;
struct Bad : fl::Term { Bad(const std::string& n) : fl::Term(n) {} std::string className() const override { return "Bad"; } std::string parameters() const override { return ""; } void configure(const std::string&) override {} double membership(double) const override { throw fl::Exception("bad"); } Term* clone() const override { return new Bad(*this); } };
static void run(Ctx& c, Rng& r, long) {
    VarSpec v; v.name = "v"; v.lo = r.dec(-10, 5, 1); v.hi = v.lo + r.dec(1, 10, 1); v.lockRange = r.coin(); int nt = r.range(0, 6); bool hasBad = false;
    for (int i = 0; i < nt; ++i) v.terms.push_back(genShape(r, r.chance(0.1) ? "Constant" : SHAPES[r.below(18)], v.lo, v.hi, "t" + std::to_string(i)));
    if (nt > 1 && r.chance(0.3)) { v.terms[1] = v.terms[0]; v.terms[1].name = "t1"; }
    std::unique_ptr<fl::Variable> x; int kind = r.below(3);
    if (kind == 0) x.reset(new fl::Variable("v")); else if (kind == 1) x.reset(new fl::InputVariable("v")); else x.reset(new fl::OutputVariable("v"));
    if (x->getValue() == x->getValue()) c.violation("initial", "a new variable has the value " + num(x->getValue()));
    x->setRange(v.lo, v.hi); x->setLockValueInRange(v.lockRange);
    for (auto& t : v.terms) x->addTerm(buildTerm(t));
    if (r.chance(0.1)) { x->addTerm(new Bad("bad")); hasBad = true; }
    fl::Engine engine; fl::InputVariable* in = new fl::InputVariable("in", -1, 1); engine.addInputVariable(in); in->setValue(r.dec(-5, 5));   // terms whose value depends on an engine
    if (r.chance(0.3)) for (int i = r.range(1, 3); i > 0; --i) x->addTerm(fl::Linear::create("l" + std::to_string(i), &engine, (double) r.dec(-3, 3), (double) r.dec(-12, 12)));
    if (r.chance(0.15)) x->addTerm(new fl::Function("unloaded", "x"));
    if (r.chance(0.15)) x->addTerm(fl::Function::create("loaded", r.pick(std::vector<std::string>{"abs (x / 10)", "0.5", "in / 10 + 0.5", "x"}), &engine));
    if (x->numberOfTerms() > v.terms.size()) { if (r.coin()) r.shuffle(x->terms()); v.terms.clear(); }   // judged by the terms' own memberships
    if (x->getMinimum() != v.lo || x->getMaximum() != v.hi || x->range() != v.hi - v.lo) c.violation("range", "range accessors disagree");
    if (kind == 2) { fl::OutputVariable* o = static_cast<fl::OutputVariable*>(x.get()); if (o->fuzzyOutput()->getMinimum() != v.lo || o->fuzzyOutput()->getMaximum() != v.hi) c.violation("fuzzy-range", "the fuzzy output has another range than its variable"); o->setName("w"); if (o->fuzzyOutput()->getName() != "w") c.violation("fuzzy-name", "the fuzzy output has another name than its variable"); o->setMinimum(v.lo - 1); if (o->fuzzyOutput()->getMinimum() != v.lo - 1 || o->getMinimum() != v.lo - 1) c.violation("fuzzy-range", "minimum not kept in step"); o->setMinimum(v.lo); }
    std::string desc = "variable [" + num(v.lo) + "," + num(v.hi) + "] lock=" + (v.lockRange ? "1" : "0"); for (auto& t : v.terms) desc += " " + termStr(t); if (v.terms.empty()) for (auto t : x->terms()) desc += " " + t->getName() + "=" + t->className() + " " + t->parameters();
    c.note(desc);
    for (int k = 0; k < 6; ++k) {
        double z = k == 0 && r.coin() ? NaN : r.chance(0.1) ? (r.coin() ? Inf : -Inf) : r.real(v.lo - 3, v.hi + 3); if (!v.terms.empty() && k == 1) z = genInput(r, v, true);
        if (k == 5) z = r.coin() ? v.lo : v.hi;
        x->setValue(z); double want = z == z && v.lockRange ? (z < v.lo ? v.lo : z > v.hi ? v.hi : z) : z;
        c.count("values set");
        if (!same(x->getValue(), want)) c.violation("clamp", "setting " + num(z) + " gives " + num(x->getValue()) + " on " + desc);
        std::string fz = x->fuzzify(z), fw; double best = 0; int bi = -1; std::vector<double> ys;
        for (size_t i = 0; i < x->numberOfTerms(); ++i) {
            double y = NaN; try { y = x->getTerm(i)->membership(z); } catch (...) {}
            if (i < v.terms.size() && !termAccept(v.terms[i], z, y) && z == z) c.violation("membership", termStr(v.terms[i]) + " at " + num(z) + " is " + num(y));
            ys.push_back(y); std::string s = fl::Op::str(std::fabs(y)); bool neg = y < 0;
            fw += i ? (neg ? " - " : " + ") : (neg ? "-" : ""); fw += s + "/" + x->getTerm(i)->getName();
            if (y > best) { best = y; bi = (int) i; }
        }
        if (fz != fw) c.violation("fuzzify", "fuzzify(" + num(z) + ") is '" + fz + "' instead of '" + fw + "' on " + desc);
        std::vector<fl::Activated> ac = x->activations(z); bool ok = ac.size() == ys.size(); for (size_t i = 0; ok && i < ys.size(); ++i) ok = ac[i].getTerm() == x->getTerm(i) && same(ac[i].getDegree(), ys[i]);
        if (!ok) c.violation("activations", "activations(" + num(z) + ") differ from the terms' memberships on " + desc);
        double yh = -7; fl::Term* h = x->highestMembership(z, &yh); c.count("rankings");
        if (bi < 0 ? h != nullptr : (h != x->getTerm(bi) || yh != best)) c.violation("highest", "highest membership at " + num(z) + " is " + (h ? h->getName() : "none") + " " + num(yh) + " instead of " + (bi < 0 ? "none" : x->getTerm(bi)->getName()) + " " + num(best) + " on " + desc);
        if (bi >= 0) { if (x->highestMembership(z) != h) c.violation("highest", "highest membership without degree differs"); }
        std::vector<fl::Activated> mx_ = x->maxActivations(z); size_t cnt = 0; for (double y : ys) if (best > 0 && y == best) ++cnt; if (mx_.size() != cnt) c.violation("maxActivations", "maxActivations(" + num(z) + ") has " + std::to_string(mx_.size()) + " entries instead of " + std::to_string(cnt));
        if (kind == 1) { std::string fi = static_cast<fl::InputVariable*>(x.get())->fuzzyInputValue(); if (fi != x->fuzzify(x->getValue())) c.violation("fuzzyInputValue", "fuzzy input value '" + fi + "' differs from fuzzify at its value"); }
        c.distinct(desc + num(z));
    }
    // lookup
    for (size_t i = 0; i < v.terms.size(); ++i) if (!x->hasTerm(v.terms[i].name) || x->getTerm(v.terms[i].name)->getName() != v.terms[i].name) c.violation("lookup", "term " + v.terms[i].name + " is not found");
    if (x->hasTerm("nope") || caught([&]() { x->getTerm("nope"); }).compare(0, 3, "fl:")) c.violation("lookup-missing", "a missing term is found");
    // sorting
    std::vector<fl::Term*> before = x->terms(); bool finite = true; std::map<fl::Term*, double> cen; fl::Centroid cd;
    for (auto t : before) { double q = Inf; try { q = dynamic_cast<fl::Constant*>(t) || dynamic_cast<fl::Linear*>(t) ? t->membership(0) : cd.defuzzify(t, v.lo, v.hi); } catch (...) {} cen[t] = q; if (q != q) finite = false; }
    x->sort(); std::vector<fl::Term*> after = x->terms(); c.count("sorts");
    std::vector<fl::Term*> p = before, q = after; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
    if (p != q) c.violation("sort-permutation", "sorting loses or duplicates terms of " + desc);
    else if (finite) for (size_t i = 1; i < after.size(); ++i) if (cen[after[i - 1]] > cen[after[i]] + 1e-9 * std::max(1.0, std::fabs(cen[after[i]]))) { c.violation("sort-order", "after sorting, " + after[i - 1]->getName() + " (centroid " + num(cen[after[i - 1]]) + ") precedes " + after[i]->getName() + " (" + num(cen[after[i]]) + ") in " + desc); break; }
    (void) hasBad; c.sample(desc);
}
Property vf::PROPERTY("P17", 12000, 400000, run, "random variables of the three kinds; values (NaN, infinite, outside) set, fuzzified, ranked and terms sorted, against the terms' own memberships; distinct counts variable+value pairs", {{"rankings", 40000}, {"sorts", 4000}});
