#include "spec.hpp"
using namespace vf;
using fl::Term;
typedef std::vector<double> V;
// ---- terms with numeric parameters: every way of setting one up ---------------------------------------
struct Shape {
    std::string cls; int n;
    std::function<Term*(const std::string&, const V&, double)> make;
    std::function<void(Term*, const Term*)> assign;
    std::vector<std::function<void(Term*, double)> > set;
    std::vector<std::function<double(const Term*)> > get;
};
template <typename T> static void common(Shape& s) { s.assign = [](Term* a, const Term* b) { *dynamic_cast<T*>(a) = *dynamic_cast<const T*>(b); }; s.n = (int) s.set.size(); }
static const std::vector<Shape>& shapes() {
    static std::vector<Shape> all;
    if (!all.empty()) return all;
#define SG(C, X) s.set.push_back([](Term* t, double v) { dynamic_cast<fl::C*>(t)->set##X(v); }); s.get.push_back([](const Term* t) { return (double) dynamic_cast<const fl::C*>(t)->get##X(); });
#define MK2(C) s.make = [](const std::string& n, const V& p, double h) -> Term* { return new fl::C(n, p[0], p[1], h); };
#define MK3(C) s.make = [](const std::string& n, const V& p, double h) -> Term* { return new fl::C(n, p[0], p[1], p[2], h); };
#define MK4(C) s.make = [](const std::string& n, const V& p, double h) -> Term* { return new fl::C(n, p[0], p[1], p[2], p[3], h); };
#define S2(C, A, B) { Shape s; s.cls = #C; MK2(C) SG(C, A) SG(C, B) common<fl::C>(s); all.push_back(s); }
#define S3(C, A, B, D) { Shape s; s.cls = #C; MK3(C) SG(C, A) SG(C, B) SG(C, D) common<fl::C>(s); all.push_back(s); }
#define S4(C, A, B, D, E) { Shape s; s.cls = #C; MK4(C) SG(C, A) SG(C, B) SG(C, D) SG(C, E) common<fl::C>(s); all.push_back(s); }
    S3(Bell, Center, Width, Slope) S2(Binary, Start, Direction) S2(Concave, Inflection, End) S2(Cosine, Center, Width)
    S2(Gaussian, Mean, StandardDeviation) S4(GaussianProduct, MeanA, StandardDeviationA, MeanB, StandardDeviationB)
    S4(PiShape, BottomLeft, TopLeft, TopRight, BottomRight) S2(Ramp, Start, End) S2(Rectangle, Start, End) S2(Sigmoid, Inflection, Slope)
    S4(SigmoidDifference, Left, Rising, Falling, Right) S4(SigmoidProduct, Left, Rising, Falling, Right) S2(Spike, Center, Width)
    S2(SShape, Start, End) S2(ZShape, Start, End) S4(Trapezoid, VertexA, VertexB, VertexC, VertexD) S3(Triangle, VertexA, VertexB, VertexC)
    return all;
}
static V getAll(const Shape& s, const Term* t) { V v; for (auto& g : s.get) v.push_back(g(t)); return v; }
static bool sameV(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static void compareTerms(Ctx& c, Rng& r, const std::string& how, const Term* a, const Term* b, double lo, double hi, const std::string& what) {
    for (int i = 0; i < 14; ++i) {
        double x = i == 0 ? NaN : i == 1 ? Inf : i == 2 ? -Inf : i < 6 ? r.dec(lo, hi, 1) : r.real(lo - 1, hi + 1);
        double ya = a->membership(x), yb = b->membership(x);
        c.count("memberships compared");
        if (!same(ya, yb)) c.violation("membership " + how, "the same term set up in two ways has different memberships (" + how + ")", what + " at " + num(x) + ": " + num(ya) + " and " + num(yb));
    }
    if (a->isMonotonic() != b->isMonotonic()) c.violation("monotonic " + how, "isMonotonic differs", what);
    if (a->isMonotonic()) for (int i = 0; i < 4; ++i) { double y = r.real(0, 1), za = a->tsukamoto(y), zb = b->tsukamoto(y); if (!same(za, zb)) c.violation("tsukamoto " + how, "tsukamoto differs between two ways of setting up the same term", what + " at " + num(y) + ": " + num(za) + " and " + num(zb)); }
}
static void shapeCase(Ctx& c, Rng& r, long idx) {
    const Shape& s = shapes()[idx % shapes().size()];
    double lo = r.dec(-10, 5), hi = lo + r.dec(1, 20);
    auto fresh = [&] { TermSpec t = genShape(r, s.cls, lo, hi, "t"); return t.p; };
    auto height = [&] { return r.coin() ? 1.0 : r.dec(0.05, 2.5); };
    V m = fresh(); double h = height(); std::string nm = pickS(r, {"low", "Medium", "very_high", "x1", "A"});
    std::unique_ptr<Term> t;
    auto desc = [&] { return s.cls + " " + nm + " " + vecStr(m) + " height " + num(h); };
    // sequence of operations on one object; the expected parameters go along
    t.reset(s.make(nm, m, h));
    int n = r.range(3, 14);
    for (int k = 0; k < n; ++k) {
        std::string op;
        switch (r.below(8)) {
            case 0: { m = fresh(); double was = h; h = height(); TermSpec q; q.cls = s.cls; q.p = m; q.height = h; t->configure(paramText(q)); op = "configure"; if (h == 1.0 && same(t->getHeight(), was)) h = was; break; }   // a height that is not given may be left as it was
            case 1: { std::unique_ptr<Term> o(t->clone()); t.swap(o); op = "clone"; break; }
            case 2: { V m2 = fresh(); double h2 = height(); std::unique_ptr<Term> o(s.make("other", m2, h2)); s.assign(o.get(), t.get()); t.swap(o); op = "assign"; break; }
            case 3: h = height(); t->setHeight(h); op = "setHeight"; break;
            case 4: nm = pickS(r, {"low", "Medium", "very_high", "x1", "A"}); t->setName(nm); op = "setName"; break;
            default: { int i = r.below(s.n); m[i] = r.chance(0.3) ? r.dec(lo, hi) : fresh()[i]; s.set[i](t.get(), m[i]); op = "setter " + std::to_string(i); }
        }
        c.count("operations on terms");
        V g = getAll(s, t.get());
        if (!sameV(g, m)) c.violation("parameters after " + s.cls + " " + op, "after " + op + " the parameters of " + s.cls + " are not those that were set", desc() + " but getters give " + vecStr(g));
        if (!same(t->getHeight(), h)) c.violation("height after " + op, "height of " + s.cls + " after " + op, desc() + " but height is " + num(t->getHeight()));
        if (t->getName() != nm) c.violation("name after " + op, "name of " + s.cls + " after " + op, desc() + " but name is " + t->getName());
    }
    TermSpec q; q.cls = s.cls; q.p = m; q.height = h; std::string text = paramText(q);
    if (t->parameters() != text) c.violation("text " + s.cls, "parameters() of " + s.cls + " is not the text of its parameters", desc() + ": '" + t->parameters() + "' expected '" + text + "'");
    std::string full = "term: " + nm + " " + s.cls + " " + text;
    for (int k = 0; k < 2; ++k) { std::string got = k ? fl::FllExporter().toString(t.get()) : t->toString(); if (got != full) c.violation("term text", k ? "FllExporter::toString(term)" : "Term::toString()", "'" + got + "' expected '" + full + "'"); }
    // against the constructor and the factory
    std::unique_ptr<Term> made(s.make(nm, m, h));
    if (!sameV(getAll(s, made.get()), m)) c.violation("constructor " + s.cls, "constructor of " + s.cls + " does not keep its arguments", desc() + ": " + vecStr(getAll(s, made.get())));
    compareTerms(c, r, "operations and constructor, " + s.cls, t.get(), made.get(), lo, hi, desc());
    std::unique_ptr<Term> fac(fl::FactoryManager::instance()->term()->constructObject(s.cls));
    if (fac->className() != s.cls) c.violation("factory class", "the factory gives another class", s.cls + ": " + fac->className());
    fac->setName(nm); fac->configure(text);
    if (!sameV(getAll(s, fac.get()), m) || !same(fac->getHeight(), h)) c.violation("configure " + s.cls, "factory and configure() of " + s.cls + " give other parameters", desc() + " from '" + text + "': " + vecStr(getAll(s, fac.get())) + " height " + num(fac->getHeight()));
    compareTerms(c, r, "factory and constructor, " + s.cls, fac.get(), made.get(), lo, hi, desc());
    // directions
    if (auto x = dynamic_cast<fl::Ramp*>(t.get())) { double d = m[1] - m[0]; int want = mEq(d, 0) || !std::isfinite(d) ? 0 : d > 0 ? 1 : -1, got = x->direction() == fl::Ramp::Positive ? 1 : x->direction() == fl::Ramp::Negative ? -1 : 0; if (want != got) c.violation("direction Ramp", "direction of Ramp", desc()); c.count("directions"); }
    if (auto x = dynamic_cast<fl::Sigmoid*>(t.get())) { int want = mEq(m[1], 0) || !std::isfinite(m[1]) ? 0 : m[1] > 0 ? 1 : -1, got = x->direction() == fl::Sigmoid::Positive ? 1 : x->direction() == fl::Sigmoid::Negative ? -1 : 0; if (want != got) c.violation("direction Sigmoid", "direction of Sigmoid", desc()); c.count("directions"); }
    if (auto x = dynamic_cast<fl::Binary*>(t.get())) { int want = m[1] > m[0] ? 1 : m[1] < m[0] ? -1 : 0, got = x->direction() == fl::Binary::Positive ? 1 : x->direction() == fl::Binary::Negative ? -1 : 0; if (want != got) c.violation("direction Binary", "direction of Binary", desc()); c.count("directions"); }
    c.distinct("s " + full); c.count("shape terms"); c.sample(desc());
}
static void listCase(Ctx& c, Rng& r) {
    int kind = r.below(4);
    if (kind == 0) {   // Discrete
        typedef fl::Discrete::Pair P; std::vector<P> m; int n = r.range(2, 9); double x = r.dec(-5, 5);
        for (int i = 0; i < n; ++i) { m.push_back(P(x, r.dec(0, 1))); x = std::floor((x + r.dec(0.1, 2)) * 1000 + 0.5) / 1000; }
        std::vector<P> sorted = m; bool shuffled = r.coin(); if (shuffled) r.shuffle(m);
        double h = r.coin() ? 1.0 : r.dec(0.1, 2);
        std::unique_ptr<fl::Discrete> t(r.coin() ? new fl::Discrete("d", m, h) : new fl::Discrete("d")); t->setXY(m); t->setHeight(h);
        const fl::Discrete* ct = t.get();
        auto check = [&](const std::string& op) {
            c.count("operations on discrete terms");
            if (ct->xy() != m) c.violation("pairs after " + op, "pairs of Discrete after " + op, "");
            std::vector<fl::scalar> xs = ct->x(), ys = ct->y(); bool ok = xs.size() == m.size() && ys.size() == m.size();
            for (size_t i = 0; ok && i < m.size(); ++i) ok = xs[i] == m[i].first && ys[i] == m[i].second && ct->x(i) == m[i].first && ct->y(i) == m[i].second && ct->xy(i) == m[i];
            if (!ok) c.violation("columns after " + op, "x() and y() of Discrete are not its pairs after " + op, "");
            if (ct->getHeight() != h) c.violation("discrete height", "height of Discrete changed by " + op, "");
        };
        check("setXY");
        for (int k = 0; k < 6; ++k) switch (r.below(5)) {
            case 0: { size_t i = r.below(n); double v = r.dec(0, 1); t->y(i) = v; m[i].second = v; check("y(i)="); break; }
            case 1: { size_t i = r.below(n); t->x(i) = m[i].first; check("x(i)="); break; }
            case 2: { size_t i = r.below(n); P p(m[i].first, r.dec(0, 1)); t->xy(i) = p; m[i] = p; check("xy(i)="); break; }
            case 3: { std::vector<fl::scalar> v = fl::Discrete::toVector(m); if (v.size() != 2 * m.size()) { c.violation("toVector", "toVector loses values", ""); break; } for (size_t i = 0; i < m.size(); ++i) if (v[2 * i] != m[i].first || v[2 * i + 1] != m[i].second) c.violation("toVector", "toVector is not the pairs in order", ""); if (fl::Discrete::toPairs(v) != m) c.violation("toPairs", "toPairs(toVector(pairs)) is not the pairs", ""); t->setXY(fl::Discrete::toPairs(v)); check("toPairs");
                std::vector<fl::scalar> w(v); w.pop_back(); double miss = r.dec(0, 1); std::vector<P> e(m); e.back().second = miss; if (fl::Discrete::toPairs(w, miss) != e) c.violation("toPairs missing", "toPairs with a missing value", ""); bool threw = false; caught([&] { fl::Discrete::toPairs(w); }, &threw); if (!threw) c.violation("toPairs odd", "toPairs accepts an odd number of values", ""); break; }
            default: { std::unique_ptr<fl::Discrete> o(t->clone()); t.swap(o); ct = t.get(); check("clone"); }
        }
        std::string sep1 = pickS(r, {",", " ", ":"}), pre = pickS(r, {"(", "", "["}), suf = pickS(r, {")", "", "]"}), sep2 = pickS(r, {" ", ";", " | "}), want;
        for (size_t i = 0; i < m.size(); ++i) want += (i ? sep2 : "") + pre + dec3(m[i].first) + sep1 + dec3(m[i].second) + suf;
        std::string got = fl::Discrete::formatXY(m, pre, sep1, suf, sep2); if (got != want) c.violation("formatXY", "formatXY", "'" + got + "' expected '" + want + "'");
        std::string text; for (size_t i = 0; i < m.size(); ++i) text += (i ? " " : "") + dec3(m[i].first) + " " + dec3(m[i].second); if (h != 1.0) text += " " + dec3(h);
        if (t->parameters() != text) c.violation("discrete text", "parameters() of Discrete", "'" + t->parameters() + "' expected '" + text + "'");
        for (size_t i = 0; i < m.size(); ++i) for (auto& p : sorted) if (p.first == m[i].first) p.second = m[i].second;
        fl::Discrete::sort(m); if (m != sorted) c.violation("sort", "Discrete::sort(pairs) does not order the pairs by x", ""); t->sort(); check("sort()");
        text.clear(); for (size_t i = 0; i < m.size(); ++i) text += (i ? " " : "") + dec3(m[i].first) + " " + dec3(m[i].second); if (h != 1.0) text += " " + dec3(h);
        std::unique_ptr<Term> f(fl::FactoryManager::instance()->term()->constructObject("Discrete")); f->configure(text);
        compareTerms(c, r, "Discrete by configure", t.get(), f.get(), m.front().first, m.back().first, text);
        fl::Discrete made("d", m, h); compareTerms(c, r, "Discrete by constructor", t.get(), &made, m.front().first, m.back().first, text);
        if (m.size() >= 3) { std::unique_ptr<fl::Discrete> v(fl::Discrete::create("v", 6, m[0].first, m[0].second, m[1].first, m[1].second, m[2].first, m[2].second)); if (v->xy() != std::vector<P>(m.begin(), m.begin() + 3) || v->getName() != "v") c.violation("create", "Discrete::create does not keep its arguments", text); }
        c.distinct("d " + text);
    } else if (kind == 1) {   // Linear
        std::unique_ptr<fl::Engine> e(new fl::Engine); int ni = r.range(1, 4); V in; for (int i = 0; i < ni; ++i) { fl::InputVariable* v = new fl::InputVariable("i" + std::to_string(i), -100, 100); in.push_back(r.dec(-5, 5)); v->setValue(in.back()); e->addInputVariable(v); }
        V m; int n = r.range(1, ni + 1); for (int i = 0; i < n; ++i) m.push_back(r.dec(-5, 5));
        std::unique_ptr<fl::Linear> t(new fl::Linear("l")); std::string how;
        switch (r.below(5)) {
            case 0: t->set(m, e.get()); how = "set"; break;
            case 1: t->setCoefficients(m); t->setEngine(e.get()); how = "setCoefficients"; break;
            case 2: t->coefficients() = m; t->updateReference(e.get()); how = "coefficients()"; break;
            case 3: { std::string s; for (double x : m) s += (s.empty() ? "" : " ") + dec3(x); t->setCoefficients(V(3, 7.0)); t->configure(s); t->setEngine(e.get()); how = "configure"; break; }
            default: t.reset(new fl::Linear("l", m, e.get())); how = "constructor";
        }
        if (r.coin()) { std::unique_ptr<fl::Linear> o(t->clone()); t.swap(o); how += " and clone"; }
        if (!sameV(static_cast<const fl::Linear*>(t.get())->coefficients(), m)) c.violation("linear " + how, "coefficients of Linear after " + how, vecStr(m) + " but " + vecStr(t->coefficients()));
        if (t->getEngine() != e.get()) c.violation("linear engine " + how, "engine of Linear after " + how, "");
        double want = 0; for (int i = 0; i < ni && i < n; ++i) want += m[i] * in[i]; if (n > ni) want += m.back();
        double got = t->membership(r.dec(-5, 5)); if (!close(got, want, 1e-12)) c.violation("linear value " + how, "Linear is not the combination of the inputs", vecStr(m) + " with inputs " + vecStr(in) + ": " + num(got) + " expected " + num(want));
        std::string text; for (double x : m) text += (text.empty() ? "" : " ") + dec3(x); if (t->parameters() != text) c.violation("linear text", "parameters() of Linear", t->parameters() + " expected " + text);
        if (n >= 2) { std::unique_ptr<fl::Linear> v(ni >= 2 ? fl::Linear::create("v", e.get(), m[0], m[1], 3.0) : fl::Linear::create("v", e.get(), m[0], m[1])); V w{m[0], m[1]}; if (ni >= 2) w.push_back(3.0); w.resize(ni + 1, NaN); if (ni <= 2 && !sameV(v->coefficients(), w)) c.violation("linear create", "Linear::create does not keep its arguments", vecStr(w) + " but " + vecStr(v->coefficients())); }
        c.distinct("l " + text); c.count("operations on linear terms");
    } else if (kind == 2) {   // Constant
        double v = r.chance(0.1) ? NaN : r.dec(-50, 50); fl::Constant t("k", r.coin() ? v : 3.0); std::string how = pickS(r, {"setValue", "configure"}); if (how == "setValue") t.setValue(v); else t.configure(dec3(v));
        std::unique_ptr<fl::Constant> o(t.clone());
        for (const fl::Constant* p : {static_cast<const fl::Constant*>(&t), static_cast<const fl::Constant*>(o.get())}) {
            if (!same(p->getValue(), v) || !same(p->membership(r.dec(-5, 5)), v)) c.violation("constant", "value of Constant after " + how, num(v) + " but " + num(p->getValue()));
            if (p->parameters() != dec3(v) || p->toString() != "term: k Constant " + dec3(v)) c.violation("constant text", "text of Constant", p->toString());
        }
        c.distinct("k " + num(v)); c.count("operations on constants");
    } else {   // Function: loaded formula and its parts
        TermSpec q; std::string f = pickS(r, {"2*x+1", "x^2-3*x", "sin(x)*4", "max(x, 1.5)", "(x+1)/(x*x+1)", "~x", "abs(x)-~x", "pow(x,2)+min(x,3)"});
        fl::Function a("f"), b("f"); std::string how = pickS(r, {"load(text)", "configure", "setFormula", "create", "copy"});
        std::unique_ptr<fl::Function> p; double x = r.dec(-3, 3);
        if (how == "load(text)") { p.reset(new fl::Function("f", "1")); p->load(f); }
        else if (how == "configure") { p.reset(dynamic_cast<fl::Function*>(fl::FactoryManager::instance()->term()->constructObject("Function"))); p->setName("f"); p->configure(f); if (!p->isLoaded()) p->load(); }
        else if (how == "setFormula") { p.reset(new fl::Function("f", "x+10")); p->load(); p->setFormula(f); p->load(); }
        else if (how == "create") p.reset(fl::Function::create("f", f));
        else { std::unique_ptr<fl::Function> o(fl::Function::create("f", f)); p.reset(o->clone()); fl::Function other("g", "x"); other.load(); other = *o; if (other.getFormula() != f || !other.isLoaded() || !same(other.membership(x), o->membership(x))) c.violation("function assign", "assignment of Function", f); }
        fl::Function ref("f", f); ref.load();
        if (p->getFormula() != f || p->parameters() != f || !p->isLoaded() || p->getName() != "f") c.violation("function " + how, "Function set up by " + how, f + " but " + p->getFormula());
        double y = p->membership(x), z = ref.membership(x); if (!same(y, z)) c.violation("function value " + how, "the same formula set up in two ways has different values", f + " at " + num(x) + ": " + num(y) + " and " + num(z));
        // the tree: copies are equal and independent, size is the number of operators and functions
        fl::Function::Node* root = p->root(); std::map<std::string, fl::scalar> vars; vars["x"] = x;
        fl::Function::Node copy(*root), over(1.0); over = *root; over = *&over; std::unique_ptr<fl::Function::Node> cl(root->clone());
        std::vector<fl::Function::Node*> all{&copy, &over, cl.get()};
        for (auto nd : all) if (nd->toPrefix() != root->toPrefix() || nd->toInfix() != root->toInfix() || nd->toPostfix() != root->toPostfix() || nd->toString() != root->toString() || nd->treeSize() != root->treeSize() || !same(nd->evaluate(&vars), y)) c.violation("tree copy", "a copy of the tree is another tree", f + ": " + nd->toInfix());
        if (root->treeSize() != root->treeSize(fl::Function::Element::Operator) + root->treeSize(fl::Function::Element::Function)) c.violation("tree size", "operators and functions do not add up to the size", f);
        p->unload(); if (p->isLoaded()) c.violation("function unload", "unload leaves the function loaded", f);
        for (auto nd : all) if (!same(nd->evaluate(&vars), y)) c.violation("tree shared", "a copy of the tree changes with the original", f);
        std::string el = fl::FactoryManager::instance()->function()->available()[r.below((int) fl::FactoryManager::instance()->function()->available().size())]; fl::Function::Element* e = fl::FactoryManager::instance()->function()->getObject(el); std::unique_ptr<fl::Function::Element> e2(e->clone());
        if (e->toString() != e2->toString() || e->toString().find(std::string(e->isOperator() ? "Operator" : "Function") + " (name=" + el + ",") != 0 || e->toString().find("arity=" + std::to_string(e->arity)) == std::string::npos || e->isOperator() == e->isFunction()) c.violation("element text", "text of a function element", e->toString());
        c.distinct("f " + f + how + num(x)); c.count("operations on functions");
    }
}
// ---- activations, defuzzifiers ---------------------------------------------------------------------------
static void smallCase(Ctx& c, Rng& r) {
    typedef fl::Threshold T; const std::vector<std::string> ops{"<", "<=", "==", "!=", ">=", ">"}; const std::vector<T::Comparison> cmp{T::LessThan, T::LessThanOrEqualTo, T::EqualTo, T::NotEqualTo, T::GreaterThanOrEqualTo, T::GreaterThan};
    int k = r.below(6); double v = r.dec(0, 1); T made; std::string how;
    switch (r.below(7)) {
        case 0: made.setThreshold(cmp[k], v); how = "setThreshold(comparison)"; break;
        case 1: made.setThreshold(ops[k], v); how = "setThreshold(text)"; break;
        case 2: made.setComparison(cmp[k]); made.setValue(v); how = "setters"; break;
        case 3: made.setValue(v); made.setComparison(made.parseComparison(ops[k])); how = "parseComparison"; break;
        case 4: made = T(ops[k], v); how = "constructor(text)"; break;
        case 5: made = T(cmp[k], v); how = "constructor(comparison)"; break;
        default: made.configure(ops[k] + " " + dec3(v)); how = "configure";
    }
    if (r.coin()) { std::unique_ptr<T> o(made.clone()); made = *o; how += " and clone"; }
    if (made.getComparison() != cmp[k] || !same(made.getValue(), v) || made.comparisonOperator() != ops[k] || made.comparisonOperator(cmp[k]) != ops[k] || made.parameters() != ops[k] + " " + dec3(v)) c.violation("threshold " + how, "Threshold set up by " + how, ops[k] + " " + num(v) + " but " + made.parameters());
    if (made.availableComparisonOperators() != ops) c.violation("comparison operators", "available comparison operators", "");
    for (int i = 0; i < 8; ++i) { double a = i == 0 ? v : i == 1 ? v + 5e-7 : i == 2 ? v - 5e-7 : i == 3 ? v + 2e-6 : i == 4 ? v - 2e-6 : r.unit(); bool want = k == 0 ? mLt(a, v) : k == 1 ? mLe(a, v) : k == 2 ? mEq(a, v) : k == 3 ? !mEq(a, v) : k == 4 ? mGe(a, v) : mGt(a, v); c.count("threshold decisions"); if (made.activatesWith(a) != want) c.violation("activatesWith " + ops[k], "activatesWith is not the comparison", num(a) + " " + ops[k] + " " + num(v)); }
    bool threw = false; caught([&] { made.parseComparison(pickS(r, {"=", "<>", "=>", "", "< ", "GreaterThan"})); }, &threw); if (!threw) c.violation("parseComparison", "an unknown comparison is accepted", "");
    auto act = [&](const std::string& cls, const std::string& pars, std::function<fl::Activation*()> f) {
        std::unique_ptr<fl::Activation> a(f()), b(fl::FactoryManager::instance()->activation()->constructObject(cls)), d(a->clone()); b->configure(pars);
        for (fl::Activation* x : {a.get(), b.get(), d.get()}) if (x->className() != cls || x->parameters() != pars || fl::FllExporter().toString(x) != cls + (pars.empty() ? "" : " " + pars)) c.violation("activation " + cls, "activation set up in different ways", cls + " " + pars + " but " + x->className() + " " + x->parameters());
        c.count("activations");
    };
    int n = r.range(0, 9);
    act("First", std::to_string(n) + " " + dec3(v), [&]() -> fl::Activation* { if (r.coin()) return new fl::First(n, v); fl::First* p = new fl::First; p->setThreshold(v); p->setNumberOfRules(n); if (p->getNumberOfRules() != n || !same(p->getThreshold(), v)) c.violation("First", "setters of First", ""); return p; });
    act("Last", std::to_string(n) + " " + dec3(v), [&]() -> fl::Activation* { if (r.coin()) return new fl::Last(n, v); fl::Last* p = new fl::Last; p->setNumberOfRules(n); p->setThreshold(v); if (p->getNumberOfRules() != n || !same(p->getThreshold(), v)) c.violation("Last", "setters of Last", ""); return p; });
    act("Highest", std::to_string(n), [&]() -> fl::Activation* { if (r.coin()) return new fl::Highest(n); fl::Highest* p = new fl::Highest; p->setNumberOfRules(n); return p; });
    act("Lowest", std::to_string(n), [&]() -> fl::Activation* { if (r.coin()) return new fl::Lowest(n); fl::Lowest* p = new fl::Lowest; p->setNumberOfRules(n); return p; });
    act("General", "", []() -> fl::Activation* { return new fl::General; }); act("Proportional", "", []() -> fl::Activation* { return new fl::Proportional; });
    // defuzzifiers
    auto fm = fl::FactoryManager::instance()->defuzzifier(); int res = r.range(1, 2000), dflt = fl::IntegralDefuzzifier::defaultResolution(); struct Restore { int d; ~Restore() { fl::IntegralDefuzzifier::setDefaultResolution(d); } } restore{dflt};
    if (r.coin()) { dflt = r.range(2, 500); fl::IntegralDefuzzifier::setDefaultResolution(dflt); }
    std::string cls = pickS(r, {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"});
    std::unique_ptr<fl::Defuzzifier> d0(fm->constructObject(cls)), d1(fm->constructIntegral(cls, res)), d2(fm->constructDefuzzifier(cls, res, fl::WeightedDefuzzifier::Tsukamoto)), d3(fm->constructObject(cls)), d4;
    dynamic_cast<fl::IntegralDefuzzifier*>(d3.get())->setResolution(res); d4.reset(d3->clone());
    if (dynamic_cast<fl::IntegralDefuzzifier*>(d0.get())->getResolution() != dflt) c.violation("default resolution", "a new defuzzifier does not have the default resolution", std::to_string(dflt));
    if (d0->toString() != cls || fl::FllExporter().toString(d0.get()) != cls) c.violation("defuzzifier text", "text of a defuzzifier at the default resolution", d0->toString());
    for (fl::Defuzzifier* p : {d1.get(), d2.get(), d3.get(), d4.get()}) { fl::IntegralDefuzzifier* q = dynamic_cast<fl::IntegralDefuzzifier*>(p); std::string want = cls + (res == dflt ? "" : " " + std::to_string(res)); if (!q || q->className() != cls || q->getResolution() != res || p->toString() != want || fl::FllExporter().toString(p) != want) c.violation("integral " + cls, "integral defuzzifier set up in different ways", want + " but " + p->toString()); c.count("defuzzifiers"); }
    typedef fl::WeightedDefuzzifier W; const std::vector<std::string> tn{"Automatic", "TakagiSugeno", "Tsukamoto"}; const std::vector<W::Type> ty{W::Automatic, W::TakagiSugeno, W::Tsukamoto}; int w = r.below(3);
    cls = pickS(r, {"WeightedAverage", "WeightedSum"}); bool avg = cls == "WeightedAverage";
    std::unique_ptr<fl::Defuzzifier> w0(fm->constructWeighted(cls, ty[w])), w1(fm->constructDefuzzifier(cls, 77, ty[w])), w2(avg ? (fl::Defuzzifier*) new fl::WeightedAverage(tn[w]) : new fl::WeightedSum(tn[w])), w3(avg ? (fl::Defuzzifier*) new fl::WeightedAverage(ty[w]) : new fl::WeightedSum(ty[w])), w4(fm->constructObject(cls)), w5(fm->constructObject(cls)), w6;
    dynamic_cast<W*>(w4.get())->setType(tn[w]); dynamic_cast<W*>(w5.get())->setType(ty[w]); w6.reset(w4->clone());
    for (fl::Defuzzifier* p : {w0.get(), w1.get(), w2.get(), w3.get(), w4.get(), w5.get(), w6.get()}) { W* q = dynamic_cast<W*>(p); std::string want = cls + (w == 0 ? "" : " " + tn[w]); if (!q || q->className() != cls || q->getType() != ty[w] || q->getTypeName() != tn[w] || W::typeName(ty[w]) != tn[w] || p->toString() != want) c.violation("weighted " + cls, "weighted defuzzifier set up in different ways", want + " but " + p->toString()); c.count("defuzzifiers"); }
    threw = false; W* q = dynamic_cast<W*>(w4.get()); caught([&] { q->setType(pickS(r, {"", "tsukamoto", "Sugeno", "Mamdani", "automatic"})); }, &threw); if (!threw || q->getType() != ty[w]) c.violation("weighted type", "an unknown type is accepted or changes the defuzzifier", q->getTypeName());
    // the type inferred from terms
    static const std::vector<std::string> names{"Constant", "Linear", "Function", "Ramp", "Sigmoid", "SShape", "ZShape", "Concave", "Triangle", "Gaussian", "Bell", "Discrete", "Spike"};
    fl::OutputVariable ov("o", 0, 1); int nt = r.below(5), base = r.below(3); std::set<int> types; std::string what; std::vector<const Term*> terms;
    for (int i = 0; i < nt; ++i) { int g = r.chance(0.2) ? r.below(3) : base; int j = g == 0 ? r.range(0, 2) : g == 1 ? r.range(3, 7) : r.range(8, 12); types.insert(g); what += names[j] + " "; ov.addTerm(fl::FactoryManager::instance()->term()->constructObject(names[j])); terms.push_back(ov.getTerm(i)); }
    fl::Aggregated ag("a", 0, 1); for (auto t : terms) ag.addTerm(t, r.unit(), fl::null);
    const W::Type tyOf[] = {W::TakagiSugeno, W::Tsukamoto, W::Automatic};
    for (int i = 0; i < 3; ++i) {
        W::Type got = W::Automatic; threw = false; caught([&] { got = i == 0 ? q->inferType(&ov) : i == 1 ? q->inferType(terms) : q->inferType((const Term*) &ag); }, &threw); c.count("inferred types");
        if (types.size() > 1 ? !threw : threw || got != (types.empty() ? W::Automatic : tyOf[*types.begin()])) c.violation("infer", "type inferred from the terms", what + " -> " + (threw ? "exception" : W::typeName(got)));
    }
    c.distinct("m " + made.parameters() + std::to_string(res) + what);
}
// ---- variables, rule blocks, rules and whole engines ---------------------------------------------------------
static std::string joinL(const std::vector<std::string>& v, const std::string& s) { std::string o; for (size_t i = 0; i < v.size(); ++i) o += (i ? s : "") + v[i]; return o; }
template <typename X> static void sameText(Ctx& c, const X* x, const std::string& what) {
    std::string a = x->toString(), b = fl::FllExporter().toString(x); c.count("component texts");
    if (a != b) c.violation("toString " + what, "toString() of a " + what + " is not its FLL text", "'" + a + "' and '" + b + "'");
    std::unique_ptr<X> cl(x->clone()); if (cl->toString() != a) c.violation("clone text " + what, "the text of a clone of a " + what + " differs", "'" + cl->toString() + "' and '" + a + "'");
}
// setters in any order on variables, rule blocks and rules: each changes what it names and nothing else
static void settersCase(Ctx& c, Rng& r) {
    typedef std::vector<std::pair<std::string, std::string> > S; std::vector<std::string> did; auto b2s = [](bool b) { return std::string(b ? "yes" : "no"); };
    auto judge = [&](const S& want, const S& got, const std::string& what) {
        std::string h; for (auto& d : did) h += d + "; "; c.note(h); c.count("settings compared", (long) want.size());
        for (size_t i = 0; i < want.size(); ++i) if (want[i].second != got[i].second) { c.violation("setters " + what + " " + want[i].first, want[i].first + " of a " + what + " is '" + got[i].second + "' instead of '" + want[i].second + "' after: " + h.substr(h.size() > 300 ? h.size() - 300 : 0), h); return false; }
        return true;
    };
    auto number = [&]() { return r.chance(0.08) ? NaN : r.chance(0.08) ? (r.coin() ? Inf : -Inf) : r.dec(-3, 3); };
    auto word = [&]() { return pickS(r, {"a", "b", "", "some text", "x_1"}); };
    auto sn = [](const fl::Norm* n) { return n ? n->className() : std::string("none"); };
    // variables of each kind
    {
        int kind = r.below(3); std::unique_ptr<fl::Variable> v(kind == 0 ? new fl::Variable : kind == 1 ? (fl::Variable*) new fl::InputVariable : new fl::OutputVariable); auto o = dynamic_cast<fl::OutputVariable*>(v.get());
        const std::string what = kind == 0 ? "variable" : kind == 1 ? "input variable" : "output variable"; did.assign(1, "new " + what);
        std::string name, desc, agg = "none", df = "none"; bool on = true, lock = false, lp = false; double lo = -Inf, hi = Inf, val = NaN, prev = NaN, def = NaN;
        for (int k = r.range(4, 24); k-- > 0;) {
            std::string w = word(); double x = number(); bool b = r.coin();
            switch (r.below(o ? 14 : 8)) {
                case 0: v->setName(name = w); did.push_back("name " + w); break;
                case 1: v->setDescription(desc = w); did.push_back("description " + w); break;
                case 2: v->setEnabled(on = b); did.push_back("enabled " + b2s(b)); break;
                case 3: v->setLockValueInRange(lock = b); did.push_back("lock range " + b2s(b)); break;
                case 4: if (x != x) break; v->setMinimum(lo = x); did.push_back("minimum " + num(x)); break;
                case 5: if (x != x) break; v->setMaximum(hi = x); did.push_back("maximum " + num(x)); break;
                case 6: { double y = number(); if (x != x || y != y) break; v->setRange(lo = std::min(x, y), hi = std::max(x, y)); did.push_back("range " + num(lo) + " " + num(hi)); break; }
                case 7: if (lock && lo > hi) break; v->setValue(x); val = lock && x == x ? x < lo ? lo : x > hi ? hi : x : x; did.push_back("value " + num(x)); break;
                case 8: o->setPreviousValue(prev = x); did.push_back("previous " + num(x)); break;
                case 9: o->setDefaultValue(def = x); did.push_back("default " + num(x)); break;
                case 10: o->setLockPreviousValue(lp = b); did.push_back("lock previous " + b2s(b)); break;
                case 11: agg = r.chance(0.2) ? "none" : SNORMS[r.below(9)]; o->setAggregation(agg == "none" ? (fl::SNorm*) fl::null : fl::FactoryManager::instance()->snorm()->constructObject(agg)); did.push_back("aggregation " + agg); break;
                case 12: df = pickS(r, {"none", "Centroid", "WeightedSum"}); o->setDefuzzifier(df == "none" ? (fl::Defuzzifier*) fl::null : fl::FactoryManager::instance()->defuzzifier()->constructObject(df)); did.push_back("defuzzifier " + df); break;
                default: if (o->numberOfTerms()) o->fuzzyOutput()->addTerm(o->getTerm(0), r.unit(), fl::null); else o->addTerm(new fl::Ramp("t", 0, 1)); did.push_back("a term or an activated term"); break;
            }
            S want{{"name", name}, {"description", desc}, {"enabled", b2s(on)}, {"lock range", b2s(lock)}, {"minimum", num(lo)}, {"maximum", num(hi)}, {"range", num(hi - lo)}, {"value", num(val)}};
            S got{{"name", v->getName()}, {"description", v->getDescription()}, {"enabled", b2s(v->isEnabled())}, {"lock range", b2s(v->isLockValueInRange())}, {"minimum", num(v->getMinimum())}, {"maximum", num(v->getMaximum())}, {"range", num(v->range())}, {"value", num(v->getValue())}};
            if (o) {
                for (auto& p : S{{"previous value", num(prev)}, {"default", num(def)}, {"lock previous", b2s(lp)}, {"aggregation", agg}, {"defuzzifier", df}, {"name of the fuzzy output", name}, {"range of the fuzzy output", num(lo) + " " + num(hi)}}) want.push_back(p);
                for (auto& p : S{{"previous value", num(o->getPreviousValue())}, {"default", num(o->getDefaultValue())}, {"lock previous", b2s(o->isLockPreviousValue())}, {"aggregation", sn(o->getAggregation())}, {"defuzzifier", o->getDefuzzifier() ? o->getDefuzzifier()->className() : "none"}, {"name of the fuzzy output", o->fuzzyOutput()->getName()}, {"range of the fuzzy output", num(o->fuzzyOutput()->getMinimum()) + " " + num(o->fuzzyOutput()->getMaximum())}}) got.push_back(p);
            }
            if (!judge(want, got, what)) return;
        }
    }
    // rule blocks
    {
        fl::RuleBlock b; did.assign(1, "new rule block"); std::string name, desc, cj = "none", dj = "none", im = "none", ac = "none"; bool on = true; size_t n = 0;
        for (int k = r.range(4, 16); k-- > 0;) {
            std::string w = word(); auto fm = fl::FactoryManager::instance(); auto tn = [&](std::string& s) { s = r.chance(0.2) ? "none" : TNORMS[r.below(7)]; return s == "none" ? (fl::TNorm*) fl::null : fm->tnorm()->constructObject(s); };
            switch (r.below(8)) {
                case 0: b.setName(name = w); did.push_back("name " + w); break;
                case 1: b.setDescription(desc = w); did.push_back("description " + w); break;
                case 2: b.setEnabled(on = r.coin()); did.push_back("enabled " + b2s(on)); break;
                case 3: b.setConjunction(tn(cj)); did.push_back("conjunction " + cj); break;
                case 4: b.setImplication(tn(im)); did.push_back("implication " + im); break;
                case 5: dj = r.chance(0.2) ? "none" : SNORMS[r.below(9)]; b.setDisjunction(dj == "none" ? (fl::SNorm*) fl::null : fm->snorm()->constructObject(dj)); did.push_back("disjunction " + dj); break;
                case 6: ac = pickS(r, {"none", "General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"}); b.setActivation(ac == "none" ? (fl::Activation*) fl::null : fm->activation()->constructObject(ac)); did.push_back("activation " + ac); break;
                default: b.addRule(new fl::Rule); ++n; did.push_back("a rule"); break;
            }
            S want{{"name", name}, {"description", desc}, {"enabled", b2s(on)}, {"conjunction", cj}, {"disjunction", dj}, {"implication", im}, {"activation", ac}, {"number of rules", std::to_string(n)}};
            S got{{"name", b.getName()}, {"description", b.getDescription()}, {"enabled", b2s(b.isEnabled())}, {"conjunction", sn(b.getConjunction())}, {"disjunction", sn(b.getDisjunction())}, {"implication", sn(b.getImplication())}, {"activation", b.getActivation() ? b.getActivation()->className() : "none"}, {"number of rules", std::to_string(b.numberOfRules())}};
            if (!judge(want, got, "rule block")) return;
        }
    }
    // rules, loaded or not
    {
        fl::Engine e; auto x = new fl::InputVariable("x", 0, 1); x->addTerm(new fl::Ramp("hi", 0, 1)); e.addInputVariable(x); auto y = new fl::OutputVariable("y", 0, 1); y->addTerm(new fl::Ramp("up", 0, 1)); e.addOutputVariable(y); x->setValue(0.5);
        const std::string T = "if x is hi then y is up"; std::unique_ptr<fl::Rule> u(r.coin() ? new fl::Rule : r.coin() ? new fl::Rule(T, 0.5) : fl::Rule::parse(T + " with 0.25", &e));
        std::string text = u->getText(); double w = u->getWeight(), deg = 0; bool on = true, trig = false, loaded = u->isLoaded(); did.assign(1, "new rule '" + text + "' weight " + num(w));
        for (int k = r.range(4, 16); k-- > 0;) {
            switch (r.below(9)) {
                case 0: u->setText(text = r.coin() ? T : T + " with 0.125"); did.push_back("text " + text); break;
                case 1: u->setWeight(w = number()); did.push_back("weight " + num(w)); break;
                case 2: u->setEnabled(on = r.coin()); did.push_back("enabled " + b2s(on)); break;
                case 3: u->setActivationDegree(deg = number()); did.push_back("degree " + num(deg)); break;
                case 4: u->setTriggered(trig = r.coin()); did.push_back("triggered " + b2s(trig)); break;
                case 5: u->deactivate(); deg = 0; trig = false; did.push_back("deactivate"); break;
                case 6: u->unload(); deg = 0; trig = false; loaded = false; did.push_back("unload"); break;
                case 7: if (text.empty()) break; u->load(&e); w = text == T ? 1 : 0.125; if (text.find("0.25") != std::string::npos) w = 0.25; deg = 0; trig = false; on = true; loaded = true; did.push_back("load"); break;
                default: if (!loaded) break; deg = w * 0.5; { double d = u->activateWith(fl::null, fl::null); if (!same(d, deg)) c.violation("setters rule degree", "activateWith gives " + num(d)); } did.push_back("activate"); break;
            }
            S want{{"text", text}, {"weight", num(w)}, {"enabled", b2s(on)}, {"degree", num(deg)}, {"triggered", b2s(trig)}, {"loaded", b2s(loaded)}};
            S got{{"text", u->getText()}, {"weight", num(u->getWeight())}, {"enabled", b2s(u->isEnabled())}, {"degree", num(u->getActivationDegree())}, {"triggered", b2s(u->isTriggered())}, {"loaded", b2s(u->isLoaded())}};
            if (!judge(want, got, "rule")) return;
        }
    }
}
static void engineCase(Ctx& c, Rng& r) {
    GenOpts o; o.heavy = 0.04; o.unloaded = true; o.maxDepth = 2; if (r.coin()) { o.nest = 0; o.hedges = 0.1; o.outAnte = 0; o.functions = o.heights = false; o.kind = r.coin() ? 0 : 2; } EngineSpec spec = genEngine(r, o); std::unique_ptr<fl::Engine> e(buildApi(spec));
    std::string plain = fl::FllExporter().toString(e.get()); if (e->toString() != plain) c.violation("engine toString", "Engine::toString is not its FLL text", "");
    // components and lists of components
    fl::FllExporter x0; std::vector<std::string> parts, in, out, rb;
    for (auto v : e->inputVariables()) { sameText(c, v, "input variable"); in.push_back(x0.toString(v)); }
    for (auto v : e->outputVariables()) { sameText(c, v, "output variable"); out.push_back(x0.toString(v)); }
    for (auto b : e->ruleBlocks()) { sameText(c, b, "rule block"); rb.push_back(x0.toString(b)); for (auto q : b->rules()) { if (q->toString() != "rule: " + q->getText() || x0.toString(q) != q->toString()) c.violation("toString rule", "text of a rule", q->toString()); } }
    if (x0.toString(e->inputVariables()) != joinL(in, "\n") || x0.toString(e->outputVariables()) != joinL(out, "\n") || x0.toString(e->ruleBlocks()) != joinL(rb, "\n")) c.violation("lists", "the text of a list of components is not that of the components", "");
    parts.push_back("Engine: " + e->getName()); if (!e->getDescription().empty()) parts.push_back("description: " + e->getDescription());
    for (auto* l : {&in, &out, &rb}) for (auto& s : *l) parts.push_back(s);
    if (joinL(parts, "\n") != plain) c.violation("whole", "the text of the engine is not that of its components", plain);
    std::vector<fl::Variable*> vars = e->variables(); std::vector<std::string> vt; if (vars.size() != in.size() + out.size()) c.violation("variables", "variables() is not the inputs and the outputs", "");
    for (auto v : vars) {
        fl::Variable plainVar(*v); std::string s = x0.toString(&plainVar); if (plainVar.toString() != s || s.find("Variable: " + v->getName()) != 0) c.violation("toString variable", "text of a plain variable", s);
        std::vector<std::string> ts; for (auto t : v->terms()) ts.push_back(x0.toString(t)); if (x0.toString(v->terms()) != joinL(ts, "\n")) c.violation("terms", "the text of a list of terms is not that of the terms", "");
        if (plainVar.type() != fl::Variable::None || v->type() != (vt.size() < in.size() ? fl::Variable::Input : fl::Variable::Output)) c.violation("type", "type of a variable", v->getName()); vt.push_back(x0.toString(v));
    }
    if (x0.toString(vars) != joinL(vt, "\n")) c.violation("lists", "the text of a list of variables is not that of the variables", "");
    // indentation and separator are layout only
    std::string ind = pickS(r, {"", "\t", "    ", " ", "  "}), sep = pickS(r, {"\n", "\n\n", "\n \n", "\r\n", "|", " || ", "\n# comment\n"}); fl::FllExporter x1(ind, sep); if (r.coin()) { x1 = fl::FllExporter(); x1.setIndent(ind); x1.setSeparator(sep); }
    if (x1.getIndent() != ind || x1.getSeparator() != sep) c.violation("indent", "indentation and separator are not those that were set", "");
    std::unique_ptr<fl::FllExporter> x2(x1.clone()); std::string laid = x1.toString(e.get()), want; std::istringstream is(plain); std::string l; bool firstLine = true;
    while (std::getline(is, l)) { if (l.compare(0, 2, "  ") == 0) l = ind + l.substr(2); want += (firstLine ? "" : sep) + l; firstLine = false; }
    if (laid != want || x2->toString(e.get()) != want) c.violation("layout", "indentation and separator change more than the layout", "'" + laid.substr(0, 800) + "'");
    bool tokens = sep.find('|') == std::string::npos || plain.find('|') == std::string::npos;
    if (tokens) {
        fl::FllImporter im(sep.find('|') == std::string::npos ? "\n" : sep); if (r.coin()) { std::string s = im.getSeparator(); im = fl::FllImporter(); im.setSeparator(s); }
        std::unique_ptr<fl::FllImporter> im2(im.clone()); std::string err, ref; std::unique_ptr<fl::Engine> a, b; bool t1 = false, t2 = false;
        ref = caught([&] { b.reset(fl::FllImporter().fromString(plain)); }, &t2); err = caught([&] { a.reset(im2->fromString(laid)); }, &t1); c.count("layouts read back");
        if (t1 != t2) c.violation("read layout", "the same description in another layout is treated differently", err + " and " + ref + "\n" + laid.substr(0, 800));
        else if (!t1) { if (a->toString() != b->toString()) c.violation("read layout", "the same description in another layout gives another engine", laid.substr(0, 800)); else c.count("layouts read back to the same engine"); }
    }
    if (plain.find("accumulation") == std::string::npos) {   // the former name of the aggregation operator
        std::string former = plain; size_t at = 0, n = 0; while ((at = former.find("  aggregation:", at)) != std::string::npos) { former.replace(at, 14, "  accumulation:"); at += 15; ++n; }
        std::unique_ptr<fl::Engine> a(fl::FllImporter().fromString(former)), b(fl::FllImporter().fromString(plain)); if (a->toString() != b->toString()) c.violation("accumulation", "the former name of the aggregation operator is not understood", former); c.count("former names", n);
    }
    // FIS: sections make up the whole
    { fl::FisExporter f; std::string whole, secs; bool t1 = false, t2 = false; caught([&] { whole = f.toString(e.get()); }, &t1); caught([&] { secs = f.exportSystem(e.get()) + "\n" + f.exportInputs(e.get()) + f.exportOutputs(e.get()) + f.exportRules(e.get()); }, &t2); if (t1 != t2 || whole != secs) c.violation("fis sections", "the sections of a FIS description are not the whole", whole); c.count("fis sections");
      if (!t1) { std::string rules = "[Rules]\n"; for (auto b : e->ruleBlocks()) { if (e->numberOfRuleBlocks() > 1) rules += "# RuleBlock " + b->getName() + "\n"; for (auto q : b->rules()) if (q->isLoaded()) { rules += f.exportRule(q, e.get()) + "\n"; c.count("fis rules"); } } if (rules != f.exportRules(e.get())) c.violation("fis rules", "the rules of a FIS description are not those of the engine", rules); } }
    // exporters and importers: names and copies
    std::vector<std::unique_ptr<fl::Exporter> > ex; ex.emplace_back(new fl::FllExporter); ex.emplace_back(new fl::FclExporter); ex.emplace_back(new fl::FisExporter); ex.emplace_back(new fl::CppExporter); ex.emplace_back(new fl::JavaExporter); ex.emplace_back(new fl::FldExporter); ex.emplace_back(new fl::RScriptExporter);
    const char* en[] = {"FllExporter", "FclExporter", "FisExporter", "CppExporter", "JavaExporter", "FldExporter", "RScriptExporter"};
    for (int i = 0; i < 7; ++i) { std::unique_ptr<fl::Exporter> k(ex[i]->clone()); if (ex[i]->name() != en[i] || k->name() != en[i]) c.violation("exporter name", "name of an exporter", ex[i]->name()); if (i == 5 || i == 6) continue; std::string a, b; bool t1 = false, t2 = false; caught([&] { a = ex[i]->toString(e.get()); }, &t1); caught([&] { b = k->toString(e.get()); }, &t2); if (a != b || t1 != t2) c.violation("exporter clone", std::string("a clone of ") + en[i] + " gives another text", a.substr(0, 500)); c.count("exporter copies"); }
    std::vector<std::unique_ptr<fl::Importer> > im; im.emplace_back(new fl::FllImporter); im.emplace_back(new fl::FclImporter); im.emplace_back(new fl::FisImporter); const char* in_[] = {"FllImporter", "FclImporter", "FisImporter"};
    for (int i = 0; i < 3; ++i) { std::unique_ptr<fl::Importer> k(im[i]->clone()); if (im[i]->name() != in_[i] || k->name() != in_[i]) c.violation("importer name", "name of an importer", im[i]->name()); }
    // rule blocks through the fluent builders; antecedents and consequents read on their own
    for (auto b : e->ruleBlocks()) {
        auto T = [](fl::TNorm* p) { return p ? p->clone() : (fl::TNorm*) fl::null; }; auto S = [](fl::SNorm* p) { return p ? p->clone() : (fl::SNorm*) fl::null; };
        std::unique_ptr<fl::RuleBlock> k; fl::Activation* ac = b->getActivation() ? b->getActivation()->clone() : fl::null; std::vector<fl::Rule*> rules; for (auto q : b->rules()) rules.push_back(q->clone());
        std::string how; switch (r.below(3)) {
            case 0: how = "constructor"; k.reset(new fl::RuleBlock(b->getName(), rules, ac, T(b->getConjunction()), S(b->getDisjunction()), T(b->getImplication()))); break;
            case 1: how = "fluent"; k.reset(new fl::RuleBlock(b->getName())); k->implication(T(b->getImplication())).activation(ac).disjunction(S(b->getDisjunction())).conjunction(T(b->getConjunction())); for (size_t i = 0; i < rules.size();) if (r.coin()) k->rule(rules[i++]); else { size_t n = r.range(0, (int) (rules.size() - i)); k->rules(std::vector<fl::Rule*>(rules.begin() + i, rules.begin() + i + n)); i += n; } break;
            default: how = "setters"; k.reset(new fl::RuleBlock); k->setName(b->getName()); k->setRules(rules); k->setImplication(T(b->getImplication())); k->setConjunction(T(b->getConjunction())); k->setDisjunction(S(b->getDisjunction())); k->setActivation(ac);
        }
        k->setDescription(b->getDescription()); k->setEnabled(b->isEnabled());
        if (k->toString() != b->toString() || k->numberOfRules() != b->numberOfRules()) c.violation("block " + how, "a rule block set up by " + how + " is another one", k->toString() + "\nexpected\n" + b->toString());
        c.count("rule blocks rebuilt");
        for (auto q : b->rules()) if (q->isLoaded()) {
            fl::Antecedent a; fl::Consequent d;
            if (r.coin()) { a.setText(q->getAntecedent()->getText()); a.load(e.get()); d.setText(q->getConsequent()->getText()); d.load(e.get()); } else { a.load(q->getAntecedent()->getText(), e.get()); d.load(q->getConsequent()->getText(), e.get()); }
            if (!a.isLoaded() || !d.isLoaded() || a.getText() != q->getAntecedent()->getText() || d.getText() != q->getConsequent()->getText() || a.toString() != q->getAntecedent()->toString() || d.toString() != q->getConsequent()->toString() || a.toPrefix() != q->getAntecedent()->toPrefix() || a.toInfix() != q->getAntecedent()->toInfix() || a.toPostfix() != q->getAntecedent()->toPostfix()) c.violation("parts of a rule", "antecedent or consequent read on its own differs from that of the rule", q->getText());
            fl::scalar da = a.activationDegree(b->getConjunction() ? b->getConjunction() : (fl::TNorm*) fl::null, b->getDisjunction()), dq = q->getAntecedent()->activationDegree(b->getConjunction(), b->getDisjunction()); if (!same(da, dq)) c.violation("degree of the antecedent", "antecedent read on its own has another degree", q->getText());
            a.unload(); d.unload(); if (a.isLoaded() || d.isLoaded()) c.violation("unload", "unload leaves parts of the rule loaded", q->getText()); c.count("rule parts");
        }
    }
    // variables through the constructor with terms and through setters
    for (auto v : e->inputVariables()) { std::vector<Term*> ts; for (auto t : v->terms()) ts.push_back(t->clone()); std::unique_ptr<fl::InputVariable> k; if (r.coin()) k.reset(new fl::InputVariable(v->getName(), v->getMinimum(), v->getMaximum())); else { k.reset(new fl::InputVariable); k->setName(v->getName()); if (r.coin()) k->setRange(v->getMinimum(), v->getMaximum()); else { k->setMaximum(v->getMaximum()); k->setMinimum(v->getMinimum()); } }
        if (r.coin()) k->setTerms(ts); else { for (size_t i = ts.size(); i > 0; --i) k->insertTerm(ts[i - 1], 0); } k->setDescription(v->getDescription()); k->setEnabled(v->isEnabled()); k->setLockValueInRange(v->isLockValueInRange()); if (k->toString() != v->toString()) c.violation("variable", "an input variable set up in another way is another one", k->toString() + "\nexpected\n" + v->toString()); if (!same(k->range(), v->getMaximum() - v->getMinimum())) c.violation("range", "range() is not maximum - minimum", ""); c.count("variables rebuilt"); }
    for (auto v : e->outputVariables()) { std::unique_ptr<fl::OutputVariable> k; if (r.coin()) k.reset(new fl::OutputVariable(v->getName(), v->getMinimum(), v->getMaximum())); else { k.reset(new fl::OutputVariable); k->setName(v->getName()); if (r.coin()) k->setRange(v->getMinimum(), v->getMaximum()); else { k->setMaximum(v->getMaximum()); k->setMinimum(v->getMinimum()); } }
        for (auto t : v->terms()) k->addTerm(t->clone()); k->setDescription(v->getDescription()); k->setEnabled(v->isEnabled()); k->setLockValueInRange(v->isLockValueInRange()); k->setLockPreviousValue(v->isLockPreviousValue()); k->setDefaultValue(v->getDefaultValue()); k->setAggregation(v->getAggregation() ? v->getAggregation()->clone() : fl::null); k->setDefuzzifier(v->getDefuzzifier() ? v->getDefuzzifier()->clone() : fl::null);
        if (k->toString() != v->toString()) c.violation("variable", "an output variable set up in another way is another one", k->toString() + "\nexpected\n" + v->toString());
        if (k->fuzzyOutput()->getName() != v->getName() || !same(k->fuzzyOutput()->getMinimum(), v->getMinimum()) || !same(k->fuzzyOutput()->getMaximum(), v->getMaximum()) || k->fuzzyOutput()->getAggregation() != k->getAggregation()) c.violation("fuzzy output", "name, range or aggregation of the fuzzy output are not those of the variable", v->getName()); c.count("variables rebuilt"); }
    // the whole engine from its parts
    { std::vector<fl::InputVariable*> a; std::vector<fl::OutputVariable*> b; std::vector<fl::RuleBlock*> d; for (auto v : e->inputVariables()) a.push_back(v->clone()); for (auto v : e->outputVariables()) b.push_back(v->clone()); for (auto v : e->ruleBlocks()) d.push_back(v->clone());
      std::unique_ptr<fl::Engine> k; std::string how = pickS(r, {"constructor", "setters", "add"}); if (how == "constructor") k.reset(new fl::Engine(e->getName(), e->getDescription(), a, b, d)); else { k.reset(new fl::Engine); k->setName(e->getName()); k->setDescription(e->getDescription()); if (how == "setters") { k->setInputVariables(a); k->setOutputVariables(b); k->setRuleBlocks(d); } else { for (auto v : a) k->addInputVariable(v); for (auto v : b) k->addOutputVariable(v); for (auto v : d) k->addRuleBlock(v); } }
      if (k->toString() != plain) c.violation("engine " + how, "an engine set up by " + how + " is another one", ""); c.count("engines rebuilt"); }
    c.distinct(plain); c.count("engines");
    // operators configured for the whole engine: by name or by object, present or not, whatever was there before
    for (int i = r.range(1, 3); i > 0; --i) {
        static const char* DEF[] = {"Centroid", "Bisector", "SmallestOfMaximum", "WeightedAverage", "WeightedSum"}; static const char* ACT[] = {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
        std::string cj = r.chance(0.25) ? "" : TNORMS[r.below(7)], dj = r.chance(0.25) ? "" : SNORMS[r.below(9)], im = r.chance(0.25) ? "" : TNORMS[r.below(7)], ag = r.chance(0.25) ? "" : SNORMS[r.below(9)], df = r.chance(0.25) ? "" : DEF[r.below(5)], ac = r.chance(0.25) ? "" : ACT[r.below(7)];
        auto fm = fl::FactoryManager::instance(); std::string given; int res = 0, rules = 0;
        if (r.coin()) e->configure(cj, dj, im, ag, df, ac);
        else { fl::Defuzzifier* d = fm->defuzzifier()->constructObject(df); if (auto x = dynamic_cast<fl::IntegralDefuzzifier*>(d)) x->setResolution(res = r.range(1, 999)); fl::Activation* a = fm->activation()->constructObject(ac); if (auto x = dynamic_cast<fl::First*>(a)) x->setNumberOfRules(rules = r.range(1, 9)); e->configure(fm->tnorm()->constructObject(cj), fm->snorm()->constructObject(dj), fm->tnorm()->constructObject(im), fm->snorm()->constructObject(ag), d, a); }
        auto cn = [](const std::string& s) { return s.empty() ? std::string("none") : s; }; std::string what = cn(cj) + " " + cn(dj) + " " + cn(im) + " " + cn(ag) + " " + cn(df) + " " + cn(ac); std::set<const void*> parts; size_t np = 0;
        auto own = [&](const void* p) { if (p) { ++np; parts.insert(p); } };
        for (auto b : e->ruleBlocks()) { own(b->getConjunction()); own(b->getDisjunction()); own(b->getImplication()); own(b->getActivation());
            std::string got = (b->getConjunction() ? b->getConjunction()->className() : "none") + " " + (b->getDisjunction() ? b->getDisjunction()->className() : "none") + " " + (b->getImplication() ? b->getImplication()->className() : "none") + " " + (b->getActivation() ? b->getActivation()->className() : "none"), want = cn(cj) + " " + cn(dj) + " " + cn(im) + " " + (ac.empty() ? "General" : ac);
            if (got != want) c.violation("configure engine", "a rule block configured with " + what + " has " + got); if (rules) if (auto x = dynamic_cast<fl::First*>(b->getActivation())) if (x->getNumberOfRules() != rules) c.violation("configure engine", "the activation configured lost its parameters"); }
        for (auto v : e->outputVariables()) { own(v->getAggregation()); own(v->getDefuzzifier()); std::string got = (v->getAggregation() ? v->getAggregation()->className() : "none") + " " + (v->getDefuzzifier() ? v->getDefuzzifier()->className() : "none");
            if (got != cn(ag) + " " + cn(df)) c.violation("configure engine", "an output variable configured with " + what + " has " + got); if (res) if (auto x = dynamic_cast<fl::IntegralDefuzzifier*>(v->getDefuzzifier())) if (x->getResolution() != res) c.violation("configure engine", "the defuzzifier configured lost its resolution"); }
        if (parts.size() != np) c.violation("configure engine", "parts configured for the engine are shared"); c.count("engines configured");
    }
}
static void run(Ctx& c, Rng& r, long idx) {
    Mute mute;
    switch (idx % 8) { case 0: case 1: case 2: case 3: shapeCase(c, r, idx / 8 * 4 + idx % 8); break; case 4: case 7: listCase(c, r); break; case 5: smallCase(c, r); for (int k = 0; k < 4; ++k) settersCase(c, r); break; default: engineCase(c, r); }
}
Property vf::PROPERTY("P41", 8000, 120000, run,
    "one component is set up in several ways (constructor, setters in random sequences, text parameters through the factory, fluent builders, clone, assignment, varargs) and all of them are compared: getters, texts, memberships; "
    "whole engines are described as a whole, by component, by section and in other layouts",
    {{"settings compared", 200000}, {"operations on terms", 10000}, {"memberships compared", 30000}, {"directions", 200}, {"operations on discrete terms", 500}, {"operations on functions", 100}, {"operations on linear terms", 100}, {"threshold decisions", 3000}, {"defuzzifiers", 3000}, {"inferred types", 1000}, {"component texts", 3000}, {"layouts read back to the same engine", 300}, {"fis rules", 60}, {"former names", 500}, {"rule parts", 2000}, {"rule blocks rebuilt", 1000}, {"variables rebuilt", 2000}, {"engines rebuilt", 500}, {"engines configured", 1000}});
