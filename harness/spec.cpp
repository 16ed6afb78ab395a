#include "spec.hpp"
namespace vf {
using namespace fl;
bool isIntegral(const std::string& d) { return d == "Bisector" || d == "Centroid" || d == "LargestOfMaximum" || d == "MeanOfMaximum" || d == "SmallestOfMaximum"; }

fl::Term* buildTerm(const TermSpec& t) {
    const std::vector<double>& p = t.p; const std::string& c = t.cls, & n = t.name; const double h = t.height;
    if (c == "Bell") return new Bell(n, p[0], p[1], p[2], h);
    if (c == "Binary") return new Binary(n, p[0], p[1], h);
    if (c == "Concave") return new Concave(n, p[0], p[1], h);
    if (c == "Constant") return new Constant(n, p[0]);
    if (c == "Cosine") return new Cosine(n, p[0], p[1], h);
    if (c == "Gaussian") return new Gaussian(n, p[0], p[1], h);
    if (c == "GaussianProduct") return new GaussianProduct(n, p[0], p[1], p[2], p[3], h);
    if (c == "PiShape") return new PiShape(n, p[0], p[1], p[2], p[3], h);
    if (c == "Ramp") return new Ramp(n, p[0], p[1], h);
    if (c == "Rectangle") return new Rectangle(n, p[0], p[1], h);
    if (c == "Sigmoid") return new Sigmoid(n, p[0], p[1], h);
    if (c == "SigmoidDifference") return new SigmoidDifference(n, p[0], p[1], p[2], p[3], h);
    if (c == "SigmoidProduct") return new SigmoidProduct(n, p[0], p[1], p[2], p[3], h);
    if (c == "Spike") return new Spike(n, p[0], p[1], h);
    if (c == "SShape") return new SShape(n, p[0], p[1], h);
    if (c == "ZShape") return new ZShape(n, p[0], p[1], h);
    if (c == "Trapezoid") return new Trapezoid(n, p[0], p[1], p[2], p[3], h);
    if (c == "Triangle") return new Triangle(n, p[0], p[1], p[2], h);
    if (c == "Discrete") { std::vector<Discrete::Pair> v; for (size_t i = 0; i + 1 < p.size(); i += 2) v.push_back(Discrete::Pair(p[i], p[i + 1])); return new Discrete(n, v, h); }
    if (c == "Linear") return new Linear(n, p);
    if (c == "Function") return new Function(n, t.formula);
    return nullptr;
}

static const char* NAMES[] = {"alpha", "Beta", "speed", "dist_1", "Temp", "press", "q2", "level", "angle", "obstacle", "mSteer", "power", "Light", "tip", "Service", "food", "fan", "load_3", "err", "dErr", "gain", "voltage", "Y", "z1",
    "_under", "android", "order", "island", "within", "thenX", "ifConst", "anyTemp", "notch", "Is", "Function_a", "TERMinal", "RANGED", "a_rather_long_name_of_a_variable_0123456789"};
static const char* TNAMES[] = {"low", "LOW", "medium", "high", "High", "left", "right", "zero", "NB", "NM", "NS", "ZE", "PS", "PM", "PB", "cold", "hot", "t1", "t2", "t_3", "tiny", "huge", "f1", "f2",
    "very_low", "notlow", "anyhow", "isolated", "andes", "oracle", "_t", "withal", "thenceforth", "sinus", "x1", "myFunction", "Discreteness", "TERMS", "METHODical"};

struct NamePool { std::vector<std::string> v; size_t i = 0; NamePool(Rng& r, const char* const* a, int n) { for (int k = 0; k < n; ++k) v.push_back(a[k]); r.shuffle(v); } std::string next() { size_t k = i++; return k < v.size() ? v[k] : v[k % v.size()] + "_" + std::to_string(k); } };

static std::string genDesc(Rng& r, const GenOpts& o) { if (!o.descriptions || r.chance(0.6)) return ""; return pickS(r, {"a description", "obstacle avoidance for a robot", "x = y", "with 'quotes' and, commas", "100% (percent)", "semi; colon"}); }

static EX genExpr(Rng& r, const EngineSpec& e, const GenOpts& o, int depth) {
    EX x(new Expr);
    if (depth > 0 && r.chance(depth >= 2 ? 0.7 : 0.45)) {
        x->k = r.chance(0.6) ? Expr::And : Expr::Or;
        bool nest = r.chance(o.nest * 2);
        x->l = genExpr(r, e, o, nest ? depth - 1 : 0);
        x->r = genExpr(r, e, o, nest || r.chance(0.4) ? depth - 1 : 0);
        return x;
    }
    Prop& p = x->p;
    p.out = e.in.empty() || (!e.out.empty() && r.chance(o.outAnte));
    const std::vector<VarSpec>& vs = p.out ? e.out : e.in;
    p.var = r.below((int) vs.size());
    p.term = r.below((int) vs[p.var].terms.size());
    int nh = r.chance(o.hedges) ? r.range(1, 3) : 0;
    for (int i = 0; i < nh; ++i) p.hedges.push_back(pickS(r, {"extremely", "not", "seldom", "somewhat", "very"}));
    if (r.chance(o.any)) { p.term = -1; p.hedges.push_back("any"); }
    return x;
}

// a range of another magnitude now and then
static void magnitude(Rng& r, const GenOpts& o, VarSpec& v) { if (!r.chance(o.wide)) return; double k = r.chance(0.5) ? 100 : 1000; v.lo *= k; v.hi *= k; if (r.chance(0.3)) { double w = v.hi - v.lo; v.lo = -w - std::fabs(v.lo); v.hi = v.lo + w; } v.lo = std::floor(v.lo * 10 + .5) / 10; v.hi = std::floor(v.hi * 10 + .5) / 10; }
EngineSpec genEngine(Rng& r, const GenOpts& o0) {
    GenOpts o = o0; bool big = r.chance(o.large); if (big) { o.maxTerms = std::max(o.maxTerms, r.chance(0.2) ? 13 : 6); o.maxRes = std::min(o.maxRes, 60); if (r.chance(0.3)) o.maxRules = 30; }
    EngineSpec e; NamePool vn(r, NAMES, sizeof NAMES / sizeof *NAMES);
    e.name = pickS(r, {"engine", "SimpleDimmer", "Robot_2", "mam21", "tsk"}); e.desc = genDesc(r, o);
    int kind = o.kind >= 0 ? o.kind : r.below(6);
    int ni = r.range(1, o.maxIn), no = r.range(1, o.maxOut); if (big) { ni = r.range(2, 13); no = r.range(2, 13); }
    std::vector<std::string> inNames;
    for (int i = 0; i < ni; ++i) {
        VarSpec v; v.name = vn.next(); v.desc = genDesc(r, o); inNames.push_back(v.name);
        v.lo = r.dec(-10, 5, 1); v.hi = v.lo + r.dec(1, r.coin() ? 3 : 20, 1);
        v.lo = std::floor(v.lo * 10 + .5) / 10; v.hi = std::floor(v.hi * 10 + .5) / 10; magnitude(r, o, v);
        if (o.infiniteRange && r.chance(0.1)) { v.hi = Inf; if (r.coin()) v.lo = -Inf; }
        v.enabled = !r.chance(o.disabled); v.lockRange = r.chance(o.locks);
        NamePool tn(r, TNAMES, sizeof TNAMES / sizeof *TNAMES);
        int nt = r.range(1, o.maxTerms);
        double lo = std::isfinite(v.lo) ? v.lo : 0, hi = std::isfinite(v.hi) ? v.hi : lo + 5;
        for (int k = 0; k < nt; ++k) {
            std::string cls; do cls = SHAPES[r.below(18)]; while (!o.discrete && cls == "Discrete");
            if (r.chance(0.4)) cls = pickS(r, {"Triangle", "Trapezoid", "Ramp", "Gaussian"});
            TermSpec t = genShape(r, cls, lo, hi, tn.next(), o.openTerms);
            if (!o.heights) t.height = 1.0; else if (t.cls != "Constant" && t.height != 1.0 && r.chance(o.tall)) t.height = r.dec(1, 3);
            v.terms.push_back(t);
        }
        e.in.push_back(v);
    }
    std::vector<std::string> fv = inNames; fv.push_back("x");
    for (int i = 0; i < no; ++i) {
        VarSpec v; v.name = vn.next(); v.desc = genDesc(r, o);
        v.lo = r.dec(-10, 5, 1); v.hi = v.lo + r.dec(1, r.coin() ? 3 : 20, 1);
        v.lo = std::floor(v.lo * 10 + .5) / 10; v.hi = std::floor(v.hi * 10 + .5) / 10; magnitude(r, o, v);
        v.enabled = !r.chance(o.disabled); v.lockRange = r.chance(o.locks); v.lockPrev = r.chance(o.locks);
        if (o.customDefaults && r.chance(0.4)) v.def = r.dec(v.lo, v.hi);
        int k = kind == 5 ? (i == 0 ? 0 : r.below(5)) : kind;
        NamePool tn(r, TNAMES, sizeof TNAMES / sizeof *TNAMES);
        int nt = r.range(1, o.maxTerms);
        for (int q = 0; q < nt; ++q) {
            TermSpec t; std::string nm = tn.next();
            if (k <= 1 || k == 4) {
                std::string cls; do cls = SHAPES[r.below(18)]; while ((!o.discrete && cls == "Discrete"));
                if (r.chance(0.4)) cls = pickS(r, {"Triangle", "Trapezoid", "Ramp", "Gaussian"});
                if (k == 4 && q == 0) cls = "Triangle";
                t = genShape(r, cls, v.lo, v.hi, nm, o.openTerms);
            } else if (k == 2) {
                int w = r.below(3);
                if (w == 0 || (w == 2 && !o.functions)) t = genShape(r, "Constant", v.lo, v.hi, nm);
                else if (w == 1) { t.cls = "Linear"; t.name = nm; int nc = r.range(1, ni + 1); for (int z = 0; z < nc; ++z) t.p.push_back(r.dec(-2, 2)); }
                else { t.cls = "Function"; t.name = nm; t.ast = fgen(r, fv, 2, true); t.formula = fprint(t.ast, nullptr); }
            } else t = genShape(r, pickS(r, {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"}), v.lo, v.hi, nm, o.openTerms);
            if (!o.heights && t.cls != "Constant" && t.cls != "Linear" && t.cls != "Function") t.height = 1.0; else if (o.heights && t.cls != "Constant" && t.height != 1.0 && r.chance(o.tall)) t.height = r.dec(1, 3);
            v.terms.push_back(t);
        }
        if (k <= 1) {
            v.defuzz = pickS(r, {"Bisector", "Centroid", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"});
            v.agg = SNORMS[r.below(9)]; if (r.chance(0.5)) v.agg = "Maximum";
            v.res = r.chance(0.1) ? 1000 : r.range(o.minRes, o.maxRes);
        } else {
            v.defuzz = pickS(r, {"WeightedAverage", "WeightedSum"});
            if (r.chance(0.4)) v.agg = SNORMS[r.below(9)];
            v.wtype = k == 2 ? pickS(r, {"Automatic", "TakagiSugeno"}) : k == 3 ? pickS(r, {"Automatic", "Tsukamoto"}) : "TakagiSugeno";
        }
        e.out.push_back(v);
    }
    int nb = r.chance(0.6) ? 1 : r.range(1, o.maxBlocks); if (big && r.chance(0.3)) nb = r.range(9, 12);
    bool oneMethod = kind == 1;
    for (int b = 0; b < nb; ++b) {
        BlockSpec k; k.name = r.chance(0.3) ? "" : pickS(r, {"rules", "main", "block_2", "safety"}); k.desc = genDesc(r, o);
        k.enabled = !r.chance(o.disabled);
        k.conj = TNORMS[r.below(7)]; k.disj = SNORMS[r.below(9)]; k.impl = oneMethod ? "AlgebraicProduct" : TNORMS[r.below(7)];
        if (r.chance(0.4)) k.conj = "Minimum";
        if (r.chance(0.4)) k.disj = "Maximum";
        if (kind != 1 && r.chance(0.4)) k.impl = "Minimum";
        if (o.activations && r.chance(0.5)) k.act = pickS(r, {"First", "Last", "Highest", "Lowest", "Proportional", "Threshold"});
        k.n = r.range(0, 4); k.thr = r.chance(0.4) ? 0.0 : r.dec(0, 1); k.cmp = pickS(r, {"<", "<=", "==", "!=", ">=", ">"});
        int nr = r.range(1, o.maxRules);
        for (int q = 0; q < nr; ++q) {
            RuleSpec s; s.ante = genExpr(r, e, o, r.below((int) o.maxDepth + 1));
            int nc = r.chance(0.6) ? 1 : r.range(1, 3);
            for (int c = 0; c < nc; ++c) {
                Prop p; p.out = true; p.var = r.below(no); p.term = r.below((int) e.out[p.var].terms.size());
                int nh = r.chance(o.hedges * 0.6) ? r.range(1, 2) : 0;
                for (int i = 0; i < nh; ++i) p.hedges.push_back(pickS(r, {"extremely", "not", "seldom", "somewhat", "very"}));
                s.cons.push_back(p);
            }
            if (r.chance(o.weights)) s.weight = r.chance(0.1) ? 0.0 : r.dec(0, 1);
            if (o.heavy > 0 && r.chance(o.heavy)) s.weight = r.dec(1, 4);
            s.enabled = !r.chance(o.disabled); s.loaded = !(o.unloaded && r.chance(0.1));
            k.rules.push_back(s);
        }
        e.blocks.push_back(k);
    }
    for (auto& k : e.blocks) for (auto& q : k.rules) q.text = ruleText(e, q, nullptr);
    return e;
}

std::string propText(const EngineSpec& e, const Prop& p) {
    const VarSpec& v = p.out ? e.out[p.var] : e.in[p.var];
    std::string s = v.name + " is";
    for (auto& h : p.hedges) s += " " + h;
    if (p.term >= 0) s += " " + v.terms[p.term].name;
    return s;
}
// parent: 0 none, 1 operand of `and` (left), 2 operand of `and` (right), 3 right operand of `or`
std::string exprText(const EngineSpec& e, const EX& x, Rng* r, int parent) {
    std::string s; bool paren = false;
    if (x->k == Expr::P) { s = propText(e, x->p); }
    else if (x->k == Expr::And) { s = exprText(e, x->l, r, 1) + " and " + exprText(e, x->r, r, 2); paren = parent == 2; }
    else { s = exprText(e, x->l, r, 0) + " or " + exprText(e, x->r, r, 3); paren = parent == 1 || parent == 2 || parent == 3; }
    if (paren || (r && r->chance(0.1))) s = r && r->coin() ? "(" + s + ")" : "( " + s + " )";
    return s;
}
std::string ruleText(const EngineSpec& e, const RuleSpec& q, Rng* r) {
    std::string s = "if " + exprText(e, q.ante, r) + " then ";
    for (size_t i = 0; i < q.cons.size(); ++i) s += (i ? " and " : "") + propText(e, q.cons[i]);
    if (q.weight != 1.0) s += " with " + dec3(q.weight);
    return s;
}
fl::Activation* buildActivation(const BlockSpec& b) {
    if (b.act == "First") return new First(b.n, b.thr);
    if (b.act == "Last") return new Last(b.n, b.thr);
    if (b.act == "Highest") return new Highest(b.n);
    if (b.act == "Lowest") return new Lowest(b.n);
    if (b.act == "Proportional") return new Proportional;
    if (b.act == "Threshold") return new Threshold(b.cmp, b.thr);
    if (b.act == "General") return new General;
    return nullptr;
}
fl::Defuzzifier* buildDefuzzifier(const VarSpec& v) {
    if (v.defuzz == "Bisector") return new Bisector(v.res);
    if (v.defuzz == "Centroid") return new Centroid(v.res);
    if (v.defuzz == "LargestOfMaximum") return new LargestOfMaximum(v.res);
    if (v.defuzz == "MeanOfMaximum") return new MeanOfMaximum(v.res);
    if (v.defuzz == "SmallestOfMaximum") return new SmallestOfMaximum(v.res);
    if (v.defuzz == "WeightedAverage") return new WeightedAverage(v.wtype);
    if (v.defuzz == "WeightedSum") return new WeightedSum(v.wtype);
    return nullptr;
}
void roundSpec(EngineSpec& s, int d) {
    double q = std::pow(10.0, d); auto rd = [&](double& v) { if (std::isfinite(v)) v = std::round(v * q) / q + 0.0; };
    for (int o = 0; o < 2; ++o) for (auto& v : o ? s.out : s.in) { rd(v.lo); rd(v.hi); rd(v.def); for (auto& t : v.terms) { for (auto& p : t.p) rd(p); rd(t.height); if (t.height <= 0) t.height = 1; } }
    for (auto& b : s.blocks) rd(b.thr);
}
fl::Engine* buildApi(const EngineSpec& e, bool load) {
    std::unique_ptr<Engine> g(new Engine(e.name, e.desc));
    for (auto& v : e.in) {
        InputVariable* x = new InputVariable; g->addInputVariable(x);
        x->setName(v.name); x->setDescription(v.desc); x->setEnabled(v.enabled); x->setRange(v.lo, v.hi); x->setLockValueInRange(v.lockRange);
        for (auto& t : v.terms) x->addTerm(buildTerm(t));
    }
    for (auto& v : e.out) {
        OutputVariable* x = new OutputVariable; g->addOutputVariable(x);
        x->setName(v.name); x->setDescription(v.desc); x->setEnabled(v.enabled); x->setRange(v.lo, v.hi); x->setLockValueInRange(v.lockRange);
        x->setLockPreviousValue(v.lockPrev); x->setDefaultValue(v.def);
        if (!v.agg.empty()) x->setAggregation(FactoryManager::instance()->snorm()->constructObject(v.agg));
        x->setDefuzzifier(buildDefuzzifier(v));
        for (auto& t : v.terms) x->addTerm(buildTerm(t));
    }
    for (size_t i = 0; i < g->numberOfInputVariables(); ++i) for (auto t : g->getInputVariable(i)->terms()) t->updateReference(g.get());
    for (size_t i = 0; i < g->numberOfOutputVariables(); ++i) for (auto t : g->getOutputVariable(i)->terms()) t->updateReference(g.get());
    for (auto& b : e.blocks) {
        RuleBlock* k = new RuleBlock; g->addRuleBlock(k);
        k->setName(b.name); k->setDescription(b.desc); k->setEnabled(b.enabled);
        if (!b.conj.empty()) k->setConjunction(FactoryManager::instance()->tnorm()->constructObject(b.conj));
        if (!b.disj.empty()) k->setDisjunction(FactoryManager::instance()->snorm()->constructObject(b.disj));
        if (!b.impl.empty()) k->setImplication(FactoryManager::instance()->tnorm()->constructObject(b.impl));
        k->setActivation(buildActivation(b));
        for (auto& q : b.rules) {
            Rule* u = new Rule; k->addRule(u);
            u->setText(q.text);
            if (load && q.loaded) u->load(g.get());
            u->setEnabled(q.enabled);
        }
    }
    return g.release();
}
std::string toFll(const EngineSpec& e, int d) {
    std::ostringstream s; auto yn = [](bool b) { return b ? "true" : "false"; };
    s << "Engine: " << e.name << "\n"; if (!e.desc.empty()) s << "  description: " << e.desc << "\n";
    for (int o = 0; o < 2; ++o) for (auto& v : o ? e.out : e.in) {
        s << (o ? "OutputVariable: " : "InputVariable: ") << v.name << "\n";
        if (!v.desc.empty()) s << "  description: " << v.desc << "\n";
        s << "  enabled: " << yn(v.enabled) << "\n  range: " << dec3(v.lo, d) << " " << dec3(v.hi, d) << "\n  lock-range: " << yn(v.lockRange) << "\n";
        if (o) {
            s << "  aggregation: " << (v.agg.empty() ? "none" : v.agg) << "\n  defuzzifier: ";
            if (v.defuzz.empty()) s << "none";
            else if (isIntegral(v.defuzz)) s << v.defuzz << " " << v.res; else s << v.defuzz << " " << v.wtype;
            s << "\n  default: " << dec3(v.def, d) << "\n  lock-previous: " << yn(v.lockPrev) << "\n";
        }
        for (auto& t : v.terms) s << "  term: " << t.name << " " << t.cls << " " << paramText(t, d) << "\n";
    }
    for (auto& b : e.blocks) {
        s << "RuleBlock: " << b.name << "\n"; if (!b.desc.empty()) s << "  description: " << b.desc << "\n";
        auto none = [](const std::string& x) { return x.empty() ? std::string("none") : x; };
        s << "  enabled: " << yn(b.enabled) << "\n  conjunction: " << none(b.conj) << "\n  disjunction: " << none(b.disj) << "\n  implication: " << none(b.impl) << "\n  activation: " << none(b.act);
        if (b.act == "First" || b.act == "Last") s << " " << b.n << " " << dec3(b.thr, d);
        else if (b.act == "Highest" || b.act == "Lowest") s << " " << b.n;
        else if (b.act == "Threshold") s << " " << b.cmp << " " << dec3(b.thr, d);
        s << "\n";
        for (auto& q : b.rules) s << "  rule: " << q.text << "\n";
    }
    return s.str();
}
std::string specStr(const EngineSpec& e) {
    std::string s = toFll(e);
    for (size_t b = 0; b < e.blocks.size(); ++b) for (size_t i = 0; i < e.blocks[b].rules.size(); ++i) {
        if (!e.blocks[b].rules[i].enabled) s += "# block " + std::to_string(b) + " rule " + std::to_string(i) + " disabled\n";
        if (!e.blocks[b].rules[i].loaded) s += "# block " + std::to_string(b) + " rule " + std::to_string(i) + " not loaded\n";
    }
    return s;
}
std::string vecStr(const std::vector<double>& v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + num(v[i]); return s + ")"; }
double genInput(Rng& r, const VarSpec& v, bool hostile) {
    double lo = std::isfinite(v.lo) ? v.lo : -5, hi = std::isfinite(v.hi) ? v.hi : lo + 10;
    if (hostile) switch (r.below(12)) { case 0: return NaN; case 1: return Inf; case 2: return -Inf; case 3: return 1e300; case 4: return -1e18; case 5: return lo - r.real(0, 5); case 6: return hi + r.real(0, 5); default: break; }
    switch (r.below(8)) {
        case 0: return lo; case 1: return hi;
        case 2: { const TermSpec& t = v.terms[r.below((int) v.terms.size())]; if (!t.p.empty()) { double x = t.p[r.below((int) t.p.size())]; if (std::isfinite(x)) return x; } return r.real(lo, hi); }
        case 3: return r.dec(lo, hi);
        default: return r.real(lo, hi);
    }
}

// ---- structural comparison ----------------------------------------------------------------------
#define DIFF(c, what) do { if (c) { std::ostringstream d_; d_ << what; return d_.str(); } } while (0)
static std::string nm(const Norm* n) {
    if (!n) return "none";
    if (auto f = dynamic_cast<const TNormFunction*>(n)) return "TNormFunction " + f->getFormula();
    if (auto f = dynamic_cast<const SNormFunction*>(n)) return "SNormFunction " + f->getFormula();
    return n->className();
}
template <typename T> static bool get(const Term* t, const T*& o) { o = dynamic_cast<const T*>(t); return o; }
static std::vector<double> termParams(const Term* t, bool heights) {
    std::vector<double> p;
#define TP(C, ...) { const C* q; if (get<C>(t, q)) { double v[] = {__VA_ARGS__}; p.assign(v, v + sizeof v / sizeof *v); } }
    TP(Bell, q->getCenter(), q->getWidth(), q->getSlope())
    TP(Binary, q->getStart(), q->getDirection())
    TP(Concave, q->getInflection(), q->getEnd())
    TP(Constant, q->getValue())
    TP(Cosine, q->getCenter(), q->getWidth())
    TP(Gaussian, q->getMean(), q->getStandardDeviation())
    TP(GaussianProduct, q->getMeanA(), q->getStandardDeviationA(), q->getMeanB(), q->getStandardDeviationB())
    TP(PiShape, q->getBottomLeft(), q->getTopLeft(), q->getTopRight(), q->getBottomRight())
    TP(Ramp, q->getStart(), q->getEnd())
    TP(Rectangle, q->getStart(), q->getEnd())
    TP(Sigmoid, q->getInflection(), q->getSlope())
    TP(SigmoidDifference, q->getLeft(), q->getRising(), q->getFalling(), q->getRight())
    TP(SigmoidProduct, q->getLeft(), q->getRising(), q->getFalling(), q->getRight())
    TP(Spike, q->getCenter(), q->getWidth())
    TP(SShape, q->getStart(), q->getEnd())
    TP(ZShape, q->getStart(), q->getEnd())
    TP(Trapezoid, q->getVertexA(), q->getVertexB(), q->getVertexC(), q->getVertexD())
    TP(Triangle, q->getVertexA(), q->getVertexB(), q->getVertexC())
    { const Discrete* q; if (get<Discrete>(t, q)) for (auto& xy : q->xy()) { p.push_back(xy.first); p.push_back(xy.second); } }
    { const Linear* q; if (get<Linear>(t, q)) p = q->coefficients(); }
    if (heights && !dynamic_cast<const Constant*>(t) && !dynamic_cast<const Linear*>(t) && !dynamic_cast<const Function*>(t)) p.push_back(t->getHeight());
    return p;
}
std::string diffTerms(const Term* a, const Term* b, const CmpOpts& o) {
    DIFF(a->className() != b->className(), "term class " << a->className() << " vs " << b->className());
    DIFF(o.names && a->getName() != b->getName(), "term name '" << a->getName() << "' vs '" << b->getName() << "'");
    std::vector<double> p = termParams(a, o.heights), q = termParams(b, o.heights);
    bool d = p.size() != q.size(); for (size_t i = 0; !d && i < p.size(); ++i) d = !close(p[i], q[i], o.eps);
    DIFF(d, "parameters of term " << a->getName() << ": " << vecStr(p) << " vs " << vecStr(q));
    if (auto f = dynamic_cast<const Function*>(a)) {
        auto g = dynamic_cast<const Function*>(b);
        std::istringstream fa(f->getFormula()), ga(g->getFormula()); std::string x, y, t; while (fa >> t) x += t + " "; while (ga >> t) y += t + " ";
        DIFF(x != y, "formula of term " << a->getName() << ": " << x << " vs " << y);
        DIFF(f->isLoaded() != g->isLoaded(), "function " << a->getName() << " loaded " << f->isLoaded() << " vs " << g->isLoaded());
    }
    return "";
}
static std::string normText(const std::string& s) { std::istringstream i(s); std::string t, o; while (i >> t) o += (o.empty() ? "" : " ") + t; return o; }
static std::string diffVar(const Variable* a, const Variable* b, const CmpOpts& o) {
    DIFF(o.names && a->getName() != b->getName(), "name '" << a->getName() << "' vs '" << b->getName() << "'");
    DIFF(o.descriptions && a->getDescription() != b->getDescription(), "description of " << a->getName() << ": '" << a->getDescription() << "' vs '" << b->getDescription() << "'");
    DIFF(o.enabled && a->isEnabled() != b->isEnabled(), "enabled of " << a->getName() << ": " << a->isEnabled() << " vs " << b->isEnabled());
    DIFF(!close(a->getMinimum(), b->getMinimum(), o.eps) || !close(a->getMaximum(), b->getMaximum(), o.eps), "range of " << a->getName() << ": " << num(a->getMinimum()) << " " << num(a->getMaximum()) << " vs " << num(b->getMinimum()) << " " << num(b->getMaximum()));
    DIFF(o.locks && a->isLockValueInRange() != b->isLockValueInRange(), "lock-range of " << a->getName());
    DIFF(o.values && !same(a->getValue(), b->getValue()), "value of " << a->getName() << ": " << num(a->getValue()) << " vs " << num(b->getValue()));
    DIFF(a->numberOfTerms() != b->numberOfTerms(), "number of terms of " << a->getName() << ": " << a->numberOfTerms() << " vs " << b->numberOfTerms());
    for (size_t i = 0; i < a->numberOfTerms(); ++i) { std::string d = diffTerms(a->getTerm(i), b->getTerm(i), o); DIFF(!d.empty(), "variable " << a->getName() << ": " << d); }
    return "";
}
std::string diffEngines(const Engine* a, const Engine* b, const CmpOpts& o) {
    DIFF(o.names && a->getName() != b->getName(), "engine name '" << a->getName() << "' vs '" << b->getName() << "'");
    DIFF(o.descriptions && a->getDescription() != b->getDescription(), "engine description '" << a->getDescription() << "' vs '" << b->getDescription() << "'");
    DIFF(a->numberOfInputVariables() != b->numberOfInputVariables(), "inputs " << a->numberOfInputVariables() << " vs " << b->numberOfInputVariables());
    DIFF(a->numberOfOutputVariables() != b->numberOfOutputVariables(), "outputs " << a->numberOfOutputVariables() << " vs " << b->numberOfOutputVariables());
    DIFF(a->numberOfRuleBlocks() != b->numberOfRuleBlocks(), "rule blocks " << a->numberOfRuleBlocks() << " vs " << b->numberOfRuleBlocks());
    for (size_t i = 0; i < a->numberOfInputVariables(); ++i) { std::string d = diffVar(a->getInputVariable(i), b->getInputVariable(i), o); DIFF(!d.empty(), "input " << i << ": " << d); }
    for (size_t i = 0; i < a->numberOfOutputVariables(); ++i) {
        const OutputVariable* x = a->getOutputVariable(i), * y = b->getOutputVariable(i);
        std::string d = diffVar(x, y, o); DIFF(!d.empty(), "output " << i << ": " << d);
        DIFF(!close(x->getDefaultValue(), y->getDefaultValue(), o.eps), "default of " << x->getName() << ": " << num(x->getDefaultValue()) << " vs " << num(y->getDefaultValue()));
        DIFF(o.locks && x->isLockPreviousValue() != y->isLockPreviousValue(), "lock-previous of " << x->getName());
        DIFF(nm(x->getAggregation()) != nm(y->getAggregation()), "aggregation of " << x->getName() << ": " << nm(x->getAggregation()) << " vs " << nm(y->getAggregation()));
        const Defuzzifier* p = x->getDefuzzifier(), * q = y->getDefuzzifier();
        DIFF(!p != !q || (p && p->className() != q->className()), "defuzzifier of " << x->getName() << ": " << (p ? p->className() : "none") << " vs " << (q ? q->className() : "none"));
        if (auto ip = dynamic_cast<const IntegralDefuzzifier*>(p)) DIFF(o.resolution && ip->getResolution() != dynamic_cast<const IntegralDefuzzifier*>(q)->getResolution(), "resolution of " << x->getName());
        if (auto wp = dynamic_cast<const WeightedDefuzzifier*>(p)) DIFF(o.wtype && wp->getType() != dynamic_cast<const WeightedDefuzzifier*>(q)->getType(), "weighted type of " << x->getName());
        DIFF(o.values && !same(x->getPreviousValue(), y->getPreviousValue()), "previous value of " << x->getName() << ": " << num(x->getPreviousValue()) << " vs " << num(y->getPreviousValue()));
        DIFF(o.values && x->fuzzyOutputValue() != y->fuzzyOutputValue(), "fuzzy value of " << x->getName() << ": " << x->fuzzyOutputValue() << " vs " << y->fuzzyOutputValue());
    }
    for (size_t i = 0; i < a->numberOfRuleBlocks(); ++i) {
        const RuleBlock* x = a->getRuleBlock(i), * y = b->getRuleBlock(i); std::string w = "rule block " + std::to_string(i) + " ";
        DIFF(o.names && x->getName() != y->getName(), w << "name '" << x->getName() << "' vs '" << y->getName() << "'");
        DIFF(o.descriptions && x->getDescription() != y->getDescription(), w << "description");
        DIFF(o.enabled && x->isEnabled() != y->isEnabled(), w << "enabled");
        DIFF(nm(x->getConjunction()) != nm(y->getConjunction()), w << "conjunction " << nm(x->getConjunction()) << " vs " << nm(y->getConjunction()));
        DIFF(nm(x->getDisjunction()) != nm(y->getDisjunction()), w << "disjunction " << nm(x->getDisjunction()) << " vs " << nm(y->getDisjunction()));
        DIFF(nm(x->getImplication()) != nm(y->getImplication()), w << "implication " << nm(x->getImplication()) << " vs " << nm(y->getImplication()));
        if (o.activation) {
            const Activation* p = x->getActivation(), * q = y->getActivation();
            std::string pa = p ? p->className() + " " + p->parameters() : "none", qa = q ? q->className() + " " + q->parameters() : "none";
            DIFF(pa != qa, w << "activation " << pa << " vs " << qa);
        }
        DIFF(x->numberOfRules() != y->numberOfRules(), w << "rules " << x->numberOfRules() << " vs " << y->numberOfRules());
        for (size_t k = 0; k < x->numberOfRules(); ++k) {
            const Rule* p = x->getRule(k), * q = y->getRule(k);
            DIFF(o.weightText && normText(p->getText()) != normText(q->getText()), w << "rule " << k << " text '" << p->getText() << "' vs '" << q->getText() << "'");
            DIFF(p->isLoaded() != q->isLoaded(), w << "rule " << k << " loaded " << p->isLoaded() << " vs " << q->isLoaded());
            DIFF(!close(p->getWeight(), q->getWeight(), o.eps), w << "rule " << k << " weight " << num(p->getWeight()) << " vs " << num(q->getWeight()));
            DIFF(o.enabled && p->isEnabled() != q->isEnabled(), w << "rule " << k << " enabled " << p->isEnabled() << " vs " << q->isEnabled());
        }
    }
    return "";
}
}
