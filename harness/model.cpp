#include "model.hpp"
namespace vf {
Model::Model(const EngineSpec& s) : e(s) {
    for (auto& v : e.in) { it.push_back({}); for (auto& t : v.terms) it.back().emplace_back(buildTerm(t)); }
    for (auto& v : e.out) { ot.push_back({}); for (auto& t : v.terms) { if (t.cls == "Linear" || t.cls == "Function") ot.back().emplace_back(nullptr); else ot.back().emplace_back(buildTerm(t)); } }
    in.assign(e.in.size(), NaN); out.resize(e.out.size());
    for (auto& b : e.blocks) rs.push_back(std::vector<RS>(b.rules.size()));
}
void Model::restart() { in.assign(e.in.size(), NaN); for (auto& o : out) o = Out(); }
static double clampTo(const VarSpec& v, double x) { if (x != x || !v.lockRange) return x; return x < v.lo ? v.lo : x > v.hi ? v.hi : x; }
void Model::setInput(size_t i, double v) { in[i] = clampTo(e.in[i], v); }
Env Model::env() const { Env m; for (size_t i = 0; i < e.in.size(); ++i) m[e.in[i].name] = in[i]; return m; }

double Model::norm(const std::string& n, double a, double b) {
    if (a != a || b != b) {
        if (n == "DrasticProduct" || n == "NilpotentMinimum") return 0.0;
        if (n == "DrasticSum" || n == "NilpotentMaximum") return 1.0;
        return NaN;
    }
    if (normBorderline(n, a, b)) frag("norm " + n);
    return normDef(n, a, b);
}
double Model::hedge(const std::string& h, double x) {
    if (h == "any") return 1.0;
    if ((h == "somewhat" || h == "seldom") && x != 0 && std::fabs(x) < 1e-11) frag("hedge near zero");
    if (h == "seldom" && x != 1 && std::fabs(1 - x) < 1e-11) frag("hedge near one");
    return hedgeDef(h, x);
}
double Model::termMu(bool o, int var, int term, double x) {
    const TermSpec& t = (o ? e.out : e.in)[var].terms[term];
    ++terms;
    if (t.cls == "Constant") return t.p[0];
    if (t.cls == "Linear") {
        double s = 0;
        for (size_t i = 0; i < in.size() && i < t.p.size(); ++i) s += t.p[i] * in[i];
        if (t.p.size() > in.size()) s += t.p.back();
        return s;
    }
    if (t.cls == "Function") { Env m = env(); m["x"] = x; FEval st; double v = feval(t.ast, m, &st); if (st.fragile) frag("formula"); return v; }
    double y = (o ? ot : it)[var][term]->membership(x);
    if (bad.empty() && !termAccept(t, x, y)) bad = termStr(t) + " at " + num(x) + " gives " + num(y) + " but its definition gives " + num(termDef(t, x));
    return y;
}
double Model::accumulated(int o, int term) {
    double r = 0; const VarSpec& v = e.out[o];
    for (auto& a : out[o].fuzzy) if (a.term == term) r = v.agg.empty() ? r + a.deg : norm(v.agg, r, a.deg);
    return r;
}
double Model::expr(const BlockSpec& b, const EX& x) {
    if (x->k == Expr::And) { double l = expr(b, x->l), r = expr(b, x->r); return norm(b.conj, l, r); }
    if (x->k == Expr::Or) { double l = expr(b, x->l), r = expr(b, x->r); return norm(b.disj, l, r); }
    const Prop& p = x->p; const VarSpec& v = (p.out ? e.out : e.in)[p.var];
    ++props;
    if (!v.enabled) return 0.0;
    double d; size_t n = p.hedges.size();
    if (n && p.hedges.back() == "any") { d = 1.0; --n; }
    else d = p.out ? accumulated(p.var, p.term) : termMu(false, p.var, p.term, in[p.var]);
    while (n-- > 0) d = hedge(p.hedges[n], d);
    return d;
}
double Model::cond(const RuleSpec& q, const BlockSpec& b) { return q.weight * expr(b, q.ante); }
void Model::fire(const BlockSpec& b, const RuleSpec& q, RS& s) {
    if (!q.enabled) return;
    if (borderline(s.deg, 0.0)) frag("degree close to the trigger threshold");
    if (!mGt(s.deg, 0.0)) return;
    s.trig = true; ++fired;
    double d = s.deg;
    for (auto& p : q.cons) {
        const VarSpec& v = e.out[p.var];
        if (!v.enabled) continue;
        if (!accumulateHedges) d = s.deg;
        for (size_t n = p.hedges.size(); n-- > 0;) d = hedge(p.hedges[n], d);
        MAct a; a.term = p.term; a.deg = d; a.impl = b.impl; out[p.var].fuzzy.push_back(a);
    }
}
static int termIndex(const fl::Variable* v, const fl::Term* t) { for (size_t i = 0; i < v->numberOfTerms(); ++i) if (v->getTerm(i) == t) return (int) i; return -1; }
static bool sameAct(const MAct& a, const fl::Activated& r, const fl::Variable* v) {
    return termIndex(v, r.getTerm()) == a.term && close(a.deg, r.getDegree(), 1e-9) && (r.getImplication() ? r.getImplication()->className() : std::string()) == a.impl;
}
// reorder the activations appended by a block to the library's order, if they are the same multiset
static void adopt(Model& m, const std::vector<size_t>& from, const fl::Engine* real) {
    for (size_t o = 0; o < m.out.size(); ++o) {
        const fl::OutputVariable* v = real->getOutputVariable(o); auto& f = m.out[o].fuzzy;
        std::vector<MAct> rest(f.begin() + from[o], f.end()), ord; bool ok = true;
        for (size_t i = 0; ok && i < f.size() - from[o]; ++i) {
            size_t k = from[o] + i; ok = false;
            if (k >= v->fuzzyOutput()->numberOfTerms()) break;
            for (size_t j = 0; j < rest.size(); ++j) if (sameAct(rest[j], v->fuzzyOutput()->getTerm(k), v)) { ord.push_back(rest[j]); rest.erase(rest.begin() + j); ok = true; break; }
        }
        if (ok) std::copy(ord.begin(), ord.end(), f.begin() + from[o]);
    }
}
void Model::process(const fl::Engine* real) {
    fragile = false; why.clear(); bad.clear();
    for (auto& o : out) o.fuzzy.clear();
    for (size_t bi = 0; bi < e.blocks.size(); ++bi) if (e.blocks[bi].enabled) activateBlock(bi, real);
    for (size_t o = 0; o < out.size(); ++o) defuzzify((int) o);
}
void Model::activateBlock(size_t bi, const fl::Engine* real) {
    {
        const BlockSpec& b = e.blocks[bi];
        std::vector<RS>& st = rs[bi];
        int n = (int) b.rules.size();
        const std::string act = b.act.empty() ? "General" : b.act;
        if (act == "General" || act == "First" || act == "Last" || act == "Threshold") {
            int done = 0;
            for (int k = 0; k < n; ++k) {
                int i = act == "Last" ? n - 1 - k : k;
                const RuleSpec& q = b.rules[i]; st[i] = RS();
                if (!q.loaded) continue;
                double d = st[i].deg = cond(q, b);
                bool go = true;
                if (act == "First" || act == "Last") {
                    if (borderline(d, 0.0) || borderline(d, b.thr)) frag("degree close to threshold");
                    go = done < b.n && mGt(d, 0.0) && mGe(d, b.thr);
                    if (go) ++done;
                } else if (act == "Threshold") {
                    if (borderline(d, b.thr)) frag("degree close to threshold");
                    const std::string& c = b.cmp; double t = b.thr;
                    go = c == "<" ? mLt(d, t) : c == "<=" ? mLe(d, t) : c == "==" ? mEq(d, t) : c == "!=" ? !mEq(d, t) : c == ">=" ? mGe(d, t) : mGt(d, t);
                }
                if (go) fire(b, q, st[i]);
            }
        } else {
            double sum = 0; std::vector<int> pos;
            for (int i = 0; i < n; ++i) {
                st[i] = RS();
                if (!b.rules[i].loaded) continue;
                st[i].deg = cond(b.rules[i], b); sum += st[i].deg;
                if (borderline(st[i].deg, 0.0) && act != "Proportional") frag("degree close to zero");
                if (act == "Proportional" || mGt(st[i].deg, 0.0)) pos.push_back(i);
            }
            if (act == "Proportional") {
                for (int i : pos) { double d = st[i].deg / sum; st[i].deg = d != d ? 0.0 : d; }
                if (std::fabs(sum) < 1e-9 && sum != 0) frag("tiny sum");
                for (int i : pos) fire(b, b.rules[i], st[i]);
            } else {
                bool hi = act == "Highest";
                const fl::RuleBlock* rb = real->getRuleBlock(bi);
                auto tie = [&](int i, int j) { return close(st[i].deg, st[j].deg, 1e-9); };
                // equal degrees: prefer the rules the library fired
                std::stable_sort(pos.begin(), pos.end(), [&](int i, int j) { return hi ? st[i].deg > st[j].deg : st[i].deg < st[j].deg; });
                for (size_t a = 0; a < pos.size();) {
                    size_t z = a + 1; while (z < pos.size() && tie(pos[z - 1], pos[z])) ++z;
                    std::stable_sort(pos.begin() + a, pos.begin() + z, [&](int i, int j) { return (!b.rules[i].enabled ? 0 : rb->getRule(i)->isTriggered() ? 2 : 1) > (!b.rules[j].enabled ? 0 : rb->getRule(j)->isTriggered() ? 2 : 1); });
                    // disabled rules use up the quota: where they could be among the chosen is decided by the library's count
                    if ((int) a < b.n && (int) z > b.n) {
                        int en = 0, trig = 0, dis = 0; for (size_t k = a; k < z; ++k) { if (!b.rules[pos[k]].enabled) ++dis; else { ++en; if (rb->getRule(pos[k])->isTriggered()) ++trig; } }
                        int slots = b.n - (int) a;
                        if (dis && trig < slots && slots - trig <= dis) {   // put slots-trig disabled ones right after the triggered ones
                            std::vector<int> g(pos.begin() + a, pos.begin() + z), t, d, u;
                            for (int i : g) (!b.rules[i].enabled ? d : rb->getRule(i)->isTriggered() ? t : u).push_back(i);
                            g = t; g.insert(g.end(), d.begin(), d.end()); g.insert(g.end(), u.begin(), u.end());
                            std::copy(g.begin(), g.end(), pos.begin() + a);
                        }
                    }
                    a = z;
                }
                bool ties = false; for (size_t k = 1; k < pos.size(); ++k) ties = ties || tie(pos[k - 1], pos[k]);
                std::vector<size_t> from; for (auto& o : out) from.push_back(o.fuzzy.size());
                for (int k = 0; k < (int) pos.size() && k < b.n; ++k) fire(b, b.rules[pos[k]], st[pos[k]]);
                if (ties) adopt(*this, from, real);
            }
        }
    }
}
double Model::setMu(int o, double x) {
    double mu = 0; const VarSpec& v = e.out[o];
    for (auto& a : out[o].fuzzy) mu = norm(v.agg, mu, norm(a.impl, termMu(true, o, a.term, x), a.deg));
    return mu;
}
std::vector<double> midpoints(double lo, double hi, int res) { std::vector<double> x; double dx = (hi - lo) / res; for (int i = 0; i < res; ++i) x.push_back(lo + (i + 0.5) * dx); return x; }

Defuzz defuzzDef(const std::string& cls, const std::vector<double>& xs, const std::vector<double>& ys) {
    Defuzz d; d.lo = d.hi = NaN; d.tol = 1e-9; d.skip = false;
    size_t n = xs.size();
    if (cls == "Centroid") {
        double num_ = 0, den = 0, aden = 0, anum = 0;
        for (size_t i = 0; i < n; ++i) { num_ += xs[i] * ys[i]; den += ys[i]; aden += std::fabs(ys[i]); anum += std::fabs(xs[i] * ys[i]); }
        if (den != 0 && (aden < 1e-280 || std::fabs(den) < 1e-6 * aden)) d.skip = true;
        d.lo = d.hi = num_ / den;
        d.tol = 1e-9 + 1e-13 * (n * anum / std::fabs(den)); if (d.tol != d.tol) d.tol = 1e-9;
        return d;
    }
    if (cls == "Bisector") {
        double sum = 0; std::vector<double> f;
        for (size_t i = 0; i < n; ++i) { if (std::isfinite(ys[i])) sum += ys[i]; f.push_back(sum); }
        if (sum != 0 && std::fabs(sum) < 1e-280) d.skip = true;
        double best = Inf; for (auto& v : f) { v = std::fabs(v / sum - 0.5); if (v < best) best = v; }
        if (best == Inf) return d;    // no area: no bisector
        double s = 0; int k = 0, near = 0; double lo = Inf, hi = -Inf;
        for (size_t i = 0; i < n; ++i) { if (f[i] == best) { s += xs[i]; ++k; } if (f[i] <= best + 1e-9) { ++near; lo = std::min(lo, xs[i]); hi = std::max(hi, xs[i]); } }
        if (near == k) d.lo = d.hi = s / k; else { d.lo = lo; d.hi = hi; }
        return d;
    }
    double mxv = -Inf; bool any = false;
    for (size_t i = 0; i < n; ++i) if (ys[i] >= mxv) { mxv = ys[i]; any = true; }
    if (!any) return d;
    std::vector<size_t> E, N;
    for (size_t i = 0; i < n; ++i) { if (ys[i] == mxv) E.push_back(i); if (ys[i] >= mxv - 1e-9) N.push_back(i); }
    if (cls == "SmallestOfMaximum") { d.lo = xs[N.front()]; d.hi = xs[E.front()]; }
    else if (cls == "LargestOfMaximum") { d.lo = xs[E.back()]; d.hi = xs[N.back()]; }
    else {
        double s = 0; for (size_t i : E) s += xs[i];
        if (E.size() == N.size()) d.lo = d.hi = s / E.size(); else { d.lo = xs[N.front()]; d.hi = xs[N.back()]; }
    }
    return d;
}
void Model::defuzzify(int oi) {
    const VarSpec& v = e.out[oi]; Out& o = out[oi];
    if (!v.enabled) return;
    o.lo = o.hi = NaN; o.valTol = 1e-9;
    if (isIntegral(v.defuzz)) {
        if (std::isfinite(v.lo + v.hi)) {
            std::vector<double> xs = midpoints(v.lo, v.hi, v.res), ys;
            for (double x : xs) ys.push_back(setMu(oi, x));
            Defuzz d = defuzzDef(v.defuzz, xs, ys);
            if (d.skip) frag("ill-conditioned defuzzification");
            o.lo = d.lo; o.hi = d.hi; o.valTol = std::max(1e-9, d.tol);
        }
    } else if (!o.fuzzy.empty()) {
        std::vector<int> order; std::map<int, double> w;
        for (auto& a : o.fuzzy) {
            if (!w.count(a.term)) { w[a.term] = a.deg; order.push_back(a.term); }
            else w[a.term] = v.agg.empty() ? w[a.term] + a.deg : norm(v.agg, w[a.term], a.deg);
        }
        double sw = 0, sz = 0, mag = 0; bool tsuka = v.wtype == "Tsukamoto";
        if (v.wtype == "Automatic") tsuka = monotonicDef(v.terms[order[0]].cls);
        for (int t : order) {
            const TermSpec& ts = v.terms[t]; double y = w[t], z;
            if (tsuka) {
                // invert with the term's own inversion (decided by P13), here only composed
                double u = std::fabs(y / ts.height);
                if (std::fabs(u - 1.0) < 1e-6 && u != 1.0) frag("inversion near the height");
                if (std::fabs(u) < 1e-6) frag("inversion near zero");
                z = ot[oi][t]->tsukamoto(y);
                if (u > 1e-4 && u < 1 - 1e-4) { double zd = tsukamotoDef(ts, y); if (bad.empty() && !close(z, zd, 1e-6)) bad = termStr(ts) + " inverts " + num(y) + " to " + num(z) + " but its definition gives " + num(zd); }
            } else z = termMu(true, oi, t, y);
            sw += y; sz += y * z; mag += std::fabs(y * z);
        }
        double r = v.defuzz == "WeightedAverage" ? sz / sw : sz;
        o.lo = o.hi = r;
        double m = v.defuzz == "WeightedAverage" ? mag / std::fabs(sw) : mag;
        o.valTol = 1e-9 * std::max(1.0, m / std::max(1.0, std::fabs(r))); if (o.valTol != o.valTol) o.valTol = 1e-9;
    }
    double x = o.hi;
    if (x != x && v.lockPrev) x = o.prev;
    if (x != x) x = v.def;
    o.raw = o.hi;
    o.prev = o.value;
    if (o.hi != o.hi) o.lo = o.hi = x;   // substituted value: exact
    o.value = clampTo(v, x);
}
std::string Model::compare(const fl::Engine* real, std::string& key, bool checkSets) {
    std::ostringstream s;
    if (!bad.empty()) { key = "membership"; return bad; }
    for (size_t b = 0; b < e.blocks.size(); ++b) {
        const fl::RuleBlock* rb = real->getRuleBlock(b);
        for (size_t i = 0; i < e.blocks[b].rules.size(); ++i) {
            const fl::Rule* q = rb->getRule(i); const RS& m = rs[b][i];
            if (!close(q->getActivationDegree(), m.deg, 1e-9)) { key = "degree:" + e.blocks[b].act; s << "block " << b << " rule " << i << " (" << q->getText() << ") has activation degree " << num(q->getActivationDegree()) << ", by definition " << num(m.deg); return s.str(); }
            if (q->isTriggered() != m.trig) { key = "triggered:" + e.blocks[b].act; s << "block " << b << " rule " << i << " (" << q->getText() << ") is " << (q->isTriggered() ? "" : "not ") << "triggered with degree " << num(m.deg) << " under " << e.blocks[b].act; return s.str(); }
        }
    }
    for (size_t o = 0; o < out.size(); ++o) {
        const fl::OutputVariable* v = real->getOutputVariable(o); const fl::Aggregated* f = v->fuzzyOutput();
        bool ok = f->numberOfTerms() == out[o].fuzzy.size();
        for (size_t i = 0; ok && i < out[o].fuzzy.size(); ++i) ok = sameAct(out[o].fuzzy[i], f->getTerm(i), v);
        if (!ok) {
            key = "fuzzy-output"; s << "fuzzy output of " << v->getName() << " is " << f->toString() << ", by definition [";
            for (auto& a : out[o].fuzzy) s << a.impl << "(" << num(a.deg) << "," << e.out[o].terms[a.term].name << ") ";
            s << "]"; return s.str();
        }
        double x = v->getValue(), lo = clampTo(e.out[o], out[o].lo), hi = clampTo(e.out[o], out[o].hi);
        if (e.out[o].enabled) {
            double t = out[o].valTol * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi))); if (!(t < 1e300)) t = 1e-9;
            bool good = lo != lo ? x != x : (x >= lo - t && x <= hi + t);
            if (!good) { key = "value:" + e.out[o].defuzz; s << "value of " << v->getName() << " is " << num(x) << ", by definition " << num(lo) << (lo == hi ? "" : ".." + num(hi)) << " (" << e.out[o].defuzz << ", fuzzy output " << f->toString() << ")"; return s.str(); }
        } else if (!same(x, out[o].value)) { key = "disabled-value"; s << "disabled output " << v->getName() << " changed to " << num(x) << " from " << num(out[o].value); return s.str(); }
        if (!close(v->getPreviousValue(), out[o].prev, 1e-6)) { key = "previous"; s << "previous value of " << v->getName() << " is " << num(v->getPreviousValue()) << ", by definition " << num(out[o].prev); return s.str(); }
        out[o].value = x;     // later steps start from the library's own value (within tolerance)
        if (checkSets && !e.out[o].agg.empty() && e.out[o].enabled) {
            const VarSpec& vs = e.out[o]; double a = std::isfinite(vs.lo) ? vs.lo : -5, z = std::isfinite(vs.hi) ? vs.hi : 5;
            if (isIntegral(vs.defuzz)) for (int k = 0; k <= 8; ++k) {
                double p = a + (z - a) * k / 8.0; bool fr = fragile; double want = setMu((int) o, p), got = f->membership(p);
                bool amb = fragile && !fr; fragile = fr;
                if (!amb && !close(want, got, 1e-9)) { key = "fuzzy-set"; s << "membership of " << num(p) << " in the fuzzy output of " << v->getName() << " is " << num(got) << ", by definition " << num(want) << ": " << f->toString(); return s.str(); }
            }
        }
    }
    return "";
}
void Model::resync(const fl::Engine* real) {
    for (size_t o = 0; o < out.size(); ++o) { out[o].value = real->getOutputVariable(o)->getValue(); out[o].prev = real->getOutputVariable(o)->getPreviousValue(); }
    for (size_t b = 0; b < rs.size(); ++b) for (size_t i = 0; i < rs[b].size(); ++i) { rs[b][i].deg = real->getRuleBlock(b)->getRule(i)->getActivationDegree(); rs[b][i].trig = real->getRuleBlock(b)->getRule(i)->isTriggered(); }
}
std::string outputsStr(const fl::Engine* e) {
    std::string s;
    for (size_t o = 0; o < e->numberOfOutputVariables(); ++o) { const fl::OutputVariable* v = e->getOutputVariable(o); s += v->getName() + "=" + num(v->getValue()) + " prev=" + num(v->getPreviousValue()) + "; "; }
    return s;
}
}
