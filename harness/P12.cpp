#include "spec.hpp"
using namespace vf;
static TermSpec wild(Rng& r, const std::string& cls) {   // ranges of any scale and position
    double w = std::pow(10.0, r.range(0, 4)), lo = r.coin() ? -w * r.unit() : r.real(-1, 1) * w * 10;
    lo = std::floor(lo); w = std::floor(w);
    TermSpec t = genShape(r, cls, lo, lo + w, "t");
    if (r.chance(0.2)) t.height = r.dec(0.01, 5);
    if (r.chance(0.2)) { // arbitrary real parameters instead of decimals
        for (auto& p : t.p) if (std::isfinite(p) && cls != "Discrete" && cls != "Triangle" && cls != "Trapezoid" && cls != "PiShape" && cls != "Rectangle") p *= 1 + r.unit() * 1e-3;
    }
    return t;
}
static void run(Ctx& c, Rng& r, long idx) {
    std::string cls = idx % 20 == 18 ? "Constant" : idx % 20 == 19 ? "Linear" : SHAPES[idx % 20];
    if (cls == "Linear") {
        int n = r.range(0, 4); fl::Engine e; TermSpec t; std::vector<double> in;
        for (int i = 0; i < n; ++i) { e.addInputVariable(new fl::InputVariable("i" + std::to_string(i))); in.push_back(r.dec(-5, 5)); e.getInputVariable(i)->setValue(in[i]); }
        std::vector<double> co; int m = r.range(0, n + 1); for (int i = 0; i < m; ++i) co.push_back(r.dec(-3, 3));
        fl::Linear l("l", co, &e); double want = 0; for (int i = 0; i < n && i < m; ++i) want += co[i] * in[i]; if (m > n) want += co.back();
        double x = r.coin() ? NaN : r.dec(-9, 9), got = l.membership(x);
        c.count("evaluations"); c.distinct("linear" + vecStr(co) + vecStr(in));
        if (!close(got, want, 1e-9)) c.violation("definition:Linear", "Linear" + vecStr(co) + " of " + vecStr(in) + " is " + num(got) + " but the definition gives " + num(want));
        fl::Linear l2; l2.configure(l.parameters()); l2.setEngine(&e);
        if (m && !close(l2.membership(x), got, 1e-9)) c.violation("configure:Linear", "reconfigured Linear '" + l.parameters() + "' gives " + num(l2.membership(x)) + " not " + num(got));
        fl::Linear l3("n", co);
        if (caught([&]() { l3.membership(1); }).empty()) c.violation("linear-engine", "Linear without an engine gives a value");
        return;
    }
    TermSpec t = cls == "Constant" ? genShape(r, cls, -10, 10, "t") : r.coin() ? wild(r, cls) : genShape(r, cls, r.dec(-10, 0), r.dec(1, 10), "t");
    c.note(termStr(t));
    std::unique_ptr<fl::Term> term(buildTerm(t)), conf(fl::FactoryManager::instance()->term()->constructObject(cls));
    std::unique_ptr<fl::Term> cl(term->clone());
    conf->setName("t");
    bool dec = true; for (double p : t.p) dec = dec && (!std::isfinite(p) || std::fabs(p * 1000 - std::floor(p * 1000 + 0.5)) < 1e-6);
    if (!dec) fl::fuzzylite::setDecimals(16);
    std::string text = term->parameters();
    conf->configure(text);
    CmpOpts o; o.eps = dec ? 1e-9 : 1e-12;
    std::string d = diffTerms(term.get(), conf.get(), o);
    if (!d.empty()) c.violation("configure:" + cls, "configuring " + cls + " from its own parameters '" + text + "' differs: " + d);
    if (conf->parameters() != text) c.violation("parameters:" + cls, "parameters '" + text + "' became '" + conf->parameters() + "'");
    std::unique_ptr<fl::Term> hc(fl::FactoryManager::instance()->term()->constructObject(cls)); hc->configure(paramText(t, dec ? 3 : 16));
    hc->setName("t");
    d = diffTerms(term.get(), hc.get(), o);
    if (!d.empty()) c.violation("text:" + cls, "configuring " + cls + " from '" + paramText(t, 16) + "' differs: " + d);
    if (cls != "Constant" && cls != "Discrete") {
        int n = (int) t.p.size(); std::string few; for (int i = 0, k = r.range(1, n - 1); i < k; ++i) few += (i ? " " : "") + dec3(t.p[i]);
        std::unique_ptr<fl::Term> bad(fl::FactoryManager::instance()->term()->constructObject(cls));
        if (caught([&]() { bad->configure(few); }).compare(0, 3, "fl:")) c.violation("few-parameters:" + cls, cls + " accepts '" + few + "'");
        c.count("rejections");
    }
    fl::fuzzylite::setDecimals(3);
    double lo = Inf, hi = -Inf;
    for (size_t i = 0; i < t.p.size(); i += cls == "Discrete" ? 2 : 1) if (std::isfinite(t.p[i])) { lo = std::min(lo, t.p[i]); hi = std::max(hi, t.p[i]); }
    if (lo > hi) { lo = 0; hi = 1; }
    double w = std::max(1.0, hi - lo);
    std::vector<double> xs = {NaN, Inf, -Inf, 1e300, -1e300, 0, lo - 2 * w, hi + 2 * w};
    for (double p : t.p) if (std::isfinite(p)) { xs.push_back(p); xs.push_back(p + r.real(-1e-5, 1e-5)); xs.push_back(p + (r.coin() ? 1e-6 : -1e-6)); xs.push_back(p + r.real(-0.01, 0.01) * w); }
    for (int k = 0; k < 12; ++k) xs.push_back(r.real(lo - 0.3 * w, hi + 0.3 * w));
    bool bounded = cls != "Discrete";
    for (double x : xs) {
        double y = term->membership(x);
        c.count("evaluations");
        if (cls == "Constant") { if (y != t.p[0]) c.violation("definition:Constant", "Constant " + num(t.p[0]) + " gives " + num(y)); continue; }
        if (x != x) { if (y == y) c.violation("nan:" + cls, termStr(t) + " at NaN gives " + num(y)); continue; }
        c.distinct(termStr(t) + num(x));
        if (!termAccept(t, x, y)) c.violation("definition:" + cls, termStr(t) + " at " + num(x) + " gives " + num(y) + " but the definition gives " + num(termDef(t, x)));
        // the tolerance around vertices lets slopes overshoot by slope*tolerance
        double slack = 1e-12;
        if (bounded && !(y >= -slack && y <= t.height + slack) && y == y) c.violation("range:" + cls, termStr(t) + " at " + num(x) + " gives " + num(y) + " outside [0," + num(t.height) + "]");
        double y2 = cl->membership(x), y3 = conf->membership(x);
        if (!same(y, y2)) c.violation("clone:" + cls, "the clone of " + termStr(t) + " at " + num(x) + " gives " + num(y2) + " not " + num(y));
        if (dec && !close(y, y3, 1e-7) && !termAccept(t, x, y3)) c.violation("configured-value:" + cls, "the reconfigured " + termStr(t) + " at " + num(x) + " gives " + num(y3) + " not " + num(y));
    }
    if (cls == "Discrete" && t.p.size() >= 2) {   // abscissas that are not numbers: any answer, but nothing outside the points is read
        std::vector<fl::Discrete::Pair> xy; for (size_t i = 0; i + 1 < t.p.size(); i += 2) xy.push_back(fl::Discrete::Pair(t.p[i], t.p[i + 1]));
        int w2 = r.below(4); if (w2 != 1) xy.front().first = NaN; if (w2 != 0) xy.back().first = NaN; if (w2 == 3) xy[r.below((int) xy.size())].first = NaN;
        xy.shrink_to_fit(); fl::Discrete u("u", xy, t.height); for (double x : xs) { u.membership(x); c.count("undefined abscissas"); }
    }
    {   // a membership does not depend on the points evaluated before
        std::vector<double> ys; for (double x : xs) ys.push_back(std::unique_ptr<fl::Term>(term->clone())->membership(x));
        for (int k = 0; k < 24; ++k) { size_t i = r.below((int) xs.size()); double y = term->membership(xs[i]); c.count("memberships after others"); if (!close(y, ys[i], 1e-12) && (xs[i] != xs[i] || !termAccept(t, xs[i], y))) { c.violation("history:" + cls, termStr(t) + " at " + num(xs[i]) + " gives " + num(y) + " after other points and " + num(ys[i]) + " before any"); break; } }
    }
    // height scales: the same shape with another height
    if (cls != "Constant") {
        double h = r.dec(0.1, 3); std::unique_ptr<fl::Term> u(term->clone()); u->setHeight(h);
        for (int k = 0; k < 4; ++k) { double x = xs[3 + r.below((int) xs.size() - 3)], a = term->membership(x) * h, b = u->membership(x) * t.height; if (!close(a, b, 1e-9)) c.violation("height:" + cls, termStr(t) + " at " + num(x) + ": height does not scale, " + num(a) + " vs " + num(b)); }
    }
    if (c.wantSample()) c.sample(termStr(t) + " at " + std::to_string(xs.size()) + " points");
}
Property vf::PROPERTY("P12", 16000, 800000, run, "random parameterisations of every term (open, reversed, degenerate, scaled, any height) evaluated at ends, vertices, near-vertices, infinities and random points against closed-form definitions; distinct counts term+point pairs", {{"evaluations", 100000}});
