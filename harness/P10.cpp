#include "model.hpp"
using namespace vf;
struct A { int t; double d; int i; };
static void run(Ctx& c, Rng& r, long) {
    int nt = r.range(1, 4); std::vector<TermSpec> ts; std::vector<std::unique_ptr<fl::Term> > own;
    for (int i = 0; i < nt; ++i) { ts.push_back(genShape(r, SHAPES[r.below(18)], -5, 5, "t" + std::to_string(i))); own.emplace_back(buildTerm(ts[i])); }
    bool sameNames = nt > 1 && r.chance(0.25); if (sameNames) { ts[1].name = ts[0].name; own[1]->setName(ts[0].name); }   // different terms may have the same name
    std::vector<std::unique_ptr<fl::TNorm> > tn; std::vector<std::string> tnn; for (int i = 0; i < 3; ++i) { tnn.push_back(TNORMS[r.below(7)]); tn.emplace_back(fl::FactoryManager::instance()->tnorm()->constructObject(tnn[i])); }
    std::unique_ptr<fl::Aggregated> a(new fl::Aggregated("out", -5, 5)); std::string agg; std::vector<A> m; double lo = -5, hi = 5; std::string hist;
    std::vector<std::unique_ptr<fl::Aggregated> > old; std::vector<std::vector<A> > oldM;   // earlier copies stay as they were
    auto str = [&](const std::vector<A>& v) { std::string s = agg + "["; for (auto& x : v) s += (x.i < 0 ? "none" : tnn[x.i]) + "(" + num(x.d) + "," + ts[x.t].name + ") "; return s + "]"; };
    auto matches = [&](const fl::Aggregated* q, const std::vector<A>& v) {
        if (q->numberOfTerms() != v.size() || q->isEmpty() != v.empty() || q->terms().size() != v.size()) return false;
        for (size_t i = 0; i < v.size(); ++i) { const fl::Activated& x = q->getTerm(i); if (x.getTerm() != own[v[i].t].get() || !same(x.getDegree(), v[i].d) || x.getImplication() != (v[i].i < 0 ? nullptr : tn[v[i].i].get())) return false; }
        return true;
    };
    int steps = r.range(4, 20);
    for (int k = 0; k < steps; ++k) {
        int op = r.below(14);
        if (op < 5) { A x; x.t = r.below(nt); x.d = r.chance(0.1) ? 0.0 : r.chance(0.1) ? 1.0 : r.dec(0, 1); x.i = r.chance(0.05) ? -1 : r.below(3); m.push_back(x);
            const fl::TNorm* t = x.i < 0 ? nullptr : tn[x.i].get();
            if (op == 0) a->addTerm(fl::Activated(own[x.t].get(), x.d, t)); else if (op == 1) a->term(own[x.t].get(), x.d, t); else a->addTerm(own[x.t].get(), x.d, t); hist += "add "; }
        else if (op == 5 && !m.empty()) { int i = r.below((int) m.size()); fl::Activated g = a->removeTerm(i); if (g.getTerm() != own[m[i].t].get() || !same(g.getDegree(), m[i].d)) c.violation("remove", "removing element " + std::to_string(i) + " of " + str(m) + " returns another one: " + g.toString()); m.erase(m.begin() + i); hist += "remove "; }
        else if (op == 6) { if (r.chance(0.3)) { a->clear(); m.clear(); hist += "clear "; } else if (caught([&]() { a->getTerm(m.size()); }).empty() || caught([&]() { a->removeTerm(m.size() + 2); }).empty()) c.violation("bounds", "an element beyond the end is returned or removed"); }
        else if (op == 7 || op == 8) { agg = r.chance(0.2) ? "" : SNORMS[r.below(9)]; fl::SNorm* s = agg.empty() ? nullptr : fl::FactoryManager::instance()->snorm()->constructObject(agg); if (r.coin()) a->setAggregation(s); else a->aggregation(s); hist += "aggregation=" + agg + " "; }
        else if (op == 9) { lo = r.dec(-9, 0); hi = r.dec(0.1, 9); if (r.coin()) a->setRange(lo, hi); else a->range(lo, hi); }
        else if (op == 10) { std::unique_ptr<fl::Aggregated> b(r.coin() ? a->clone() : new fl::Aggregated(*a)); std::swap(a, b); old.push_back(std::move(b)); oldM.push_back(m); hist += "copy "; }
        else if (op == 11) { fl::Aggregated b("other", 0, 1); b.setAggregation(new fl::Maximum); b.addTerm(own[0].get(), 0.3, nullptr); b = *a; if (!matches(&b, m)) c.violation("assign", "assignment of " + str(m) + " differs"); fl::Aggregated* p = a.get(); *a = *p; hist += "assign "; }
        else if (op == 12) { std::vector<A> v; std::vector<fl::Activated> w; for (int i = r.below(4); i > 0; --i) { A x; x.t = r.below(nt); x.d = r.dec(0, 1); x.i = r.below(3); v.push_back(x); w.push_back(fl::Activated(own[x.t].get(), x.d, tn[x.i].get())); } if (r.coin()) { a->setTerms(w); m = v; hist += "setTerms "; } else { a->terms(w); m.insert(m.end(), v.begin(), v.end()); hist += "terms+ "; } }
        c.note(hist + str(m)); c.count("edits");
        if (!matches(a.get(), m)) { c.violation("contents", "after " + hist + "the set is " + a->toString() + " instead of " + str(m)); return; }
        if (a->getMinimum() != lo || a->getMaximum() != hi || a->range() != hi - lo) { c.violation("range", "range is " + num(a->getMinimum()) + " " + num(a->getMaximum()) + " after setting " + num(lo) + " " + num(hi)); return; }
        if ((a->getAggregation() ? a->getAggregation()->className() : "") != agg) { c.violation("aggregation", "aggregation is not " + agg); return; }
        bool noImpl = false; for (auto& x : m) noImpl = noImpl || x.i < 0;
        for (int q = 0; q < 3; ++q) {
            double x = r.chance(0.05) ? NaN : r.real(-7, 7); bool threw; double got = 0; std::string ex = caught([&]() { got = a->membership(x); }, &threw);
            c.count("memberships");
            if (x != x) { if (!threw && got == got) c.violation("nan", "membership of NaN is " + num(got)); continue; }
            if (!m.empty() && (agg.empty() || noImpl)) { c.count("missing operators"); if (!threw || ex.compare(0, 3, "fl:")) c.violation("missing-operator", "membership of " + str(m) + " with a missing operator gives " + num(got)); continue; }
            if (threw) { c.violation("throws", "membership of " + str(m) + " throws " + ex); continue; }
            double want = 0; bool frag = false;
            for (auto& z : m) { double mu = own[z.t]->membership(x); if (!termAccept(ts[z.t], x, mu)) c.violation("term", termStr(ts[z.t]) + " at " + num(x)); frag = frag || normBorderline(tnn[z.i], mu, z.d); double im = normDef(tnn[z.i], mu, z.d); frag = frag || normBorderline(agg, want, im); want = normDef(agg, want, im); }
            if (frag) continue;
            if (!close(got, want, 1e-9)) c.violation("membership", "membership of " + num(x) + " in " + str(m) + " is " + num(got) + " but the definition gives " + num(want));
            else c.distinct(str(m) + num(x));
        }
        for (int t = 0; t < nt; ++t) {
            double want = 0; bool frag = false; for (auto& z : m) if (z.t == t) { if (!agg.empty()) frag = frag || normBorderline(agg, want, z.d); want = agg.empty() ? want + z.d : normDef(agg, want, z.d); }
            double got = a->activationDegree(own[t].get());
            if (!frag && !close(got, want, 1e-9)) c.violation("activationDegree", "activation degree of " + ts[t].name + " in " + str(m) + " is " + num(got) + " but the fold gives " + num(want));
        }
        {   // grouping keeps the aggregated degree of every term, in order of first appearance
            fl::Aggregated g = a->grouped(); std::vector<int> order; std::map<int, double> w; std::map<int, int> op; bool frag = false;
            for (auto& z : m) { if (!w.count(z.t)) { w[z.t] = z.d; op[z.t] = z.i; order.push_back(z.t); } else { if (!agg.empty()) frag = frag || normBorderline(agg, w[z.t], z.d); w[z.t] = agg.empty() ? w[z.t] + z.d : normDef(agg, w[z.t], z.d); } }
            bool ok = g.numberOfTerms() == order.size(); for (size_t i = 0; ok && !frag && i < order.size(); ++i) ok = g.getTerm(i).getTerm() == own[order[i]].get() && close(g.getTerm(i).getDegree(), w[order[i]], 1e-9) && g.getTerm(i).getImplication() == (op[order[i]] < 0 ? nullptr : tn[op[order[i]]].get());
            if (!ok && !sameNames) c.violation("grouped", "grouping " + str(m) + " gives " + g.toString());
            std::vector<fl::Activated> mxs = a->maximallyActivatedTerms(); double best = 0; for (auto& z : m) best = std::max(best, z.d); std::vector<int> wi; for (size_t i = 0; i < m.size(); ++i) if (best > 0 && m[i].d == best) wi.push_back((int) i);
            ok = mxs.size() == wi.size(); for (size_t i = 0; ok && i < wi.size(); ++i) ok = mxs[i].getTerm() == own[m[wi[i]].t].get() && mxs[i].getDegree() == best;
            if (!ok) c.violation("maximal", "maximally activated terms of " + str(m) + " are wrong");
            fl::Activated h = a->highestActivatedTerm(); if (wi.empty() ? h.getTerm() != nullptr : h.getTerm() != own[m[wi[0]].t].get()) c.violation("highest", "highest activated term of " + str(m) + " is wrong");
            std::string fv = a->fuzzyValue(), fw; for (size_t i = 0; i < m.size(); ++i) fw += std::string(i ? " + " : "") + fl::Op::str(m[i].d) + "/" + ts[m[i].t].name;
            if (fv != fw) c.violation("fuzzyValue", "fuzzy value of " + str(m) + " is '" + fv + "' instead of '" + fw + "'");
            std::string ss = "out: Aggregated "; ss += agg.empty() ? "[" : agg + "["; for (size_t i = 0; i < m.size(); ++i) ss += std::string(i ? (agg.empty() ? "+" : ",") : "") + (m[i].i < 0 ? "" : tnn[m[i].i]) + "(" + fl::Op::str(m[i].d) + (m[i].i < 0 ? "*" : ",") + ts[m[i].t].name + ")";
            if (a->toString() != ss + "]") c.violation("toString", "printed as '" + a->toString() + "' instead of '" + ss + "]'");
        }
        for (size_t i = 0; i < old.size(); ++i) if (!matches(old[i].get(), oldM[i])) { c.violation("copy-independence", "an earlier copy changed after " + hist); return; }
    }
    c.sample(hist + str(m));
}
Property vf::PROPERTY("P10", 8000, 300000, run, "edit histories of fuzzy output sets; after every edit contents, membership at random points, activation degrees, grouping and printing are compared with the sequence model; distinct counts set+point pairs", {{"memberships", 50000}, {"missing operators", 2000}});
