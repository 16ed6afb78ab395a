#include "model.hpp"
using namespace vf;
static const char* DEF[] = {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"};
// an arbitrary membership function: steps, plateaus, holes
struct Steps : fl::Term {
    std::vector<double> v; double lo, hi; mutable long calls = 0;
    Steps(const std::vector<double>& y, double a, double b) : fl::Term("steps"), v(y), lo(a), hi(b) {}
    std::string className() const override { return "Steps"; }
    std::string parameters() const override { return ""; }
    void configure(const std::string&) override {}
    double membership(double x) const override { ++calls; if (x != x) return x; int n = (int) v.size(); int i = (int) std::floor((x - lo) / (hi - lo) * n); return v[i < 0 ? 0 : i >= n ? n - 1 : i]; }
    Term* clone() const override { return new Steps(*this); }
};
static void run(Ctx& c, Rng& r, long idx) {
    double lo = r.dec(-100, 100, r.below(4)), w = r.chance(0.2) ? r.dec(0.001, 0.1) : r.dec(0.1, r.coin() ? 5 : 500); if (w <= 0) w = 1; double hi = lo + w;
    std::vector<TermSpec> ts; std::unique_ptr<fl::Aggregated> agg; std::unique_ptr<fl::Term> single; std::vector<std::unique_ptr<fl::Term> > own; std::vector<std::unique_ptr<fl::TNorm> > impl;
    std::string what; fl::Term* term; bool smooth = false;
    int kind = idx % 3;
    if (kind == 0) {
        std::string cls = SHAPES[r.below(18)];
        ts.push_back(genShape(r, cls, lo, std::max(hi, lo + 1), "t")); single.reset(buildTerm(ts[0])); term = single.get(); what = termStr(ts[0]);
        smooth = cls == "Gaussian" || cls == "Bell" || cls == "Trapezoid" || cls == "Triangle" || cls == "Sigmoid" || cls == "Cosine";
    } else if (kind == 1) {
        std::string a = SNORMS[r.below(9)]; agg.reset(new fl::Aggregated("agg", lo, hi, fl::FactoryManager::instance()->snorm()->constructObject(a)));
        int n = r.range(0, 5); what = a + "[";
        for (int i = 0; i < n; ++i) {
            ts.push_back(genShape(r, SHAPES[r.below(18)], lo, std::max(hi, lo + 1), "t" + std::to_string(i))); own.emplace_back(buildTerm(ts.back()));
            impl.emplace_back(fl::FactoryManager::instance()->tnorm()->constructObject(TNORMS[r.below(7)]));
            double d = r.chance(0.2) ? 1.0 : r.dec(0, 1); agg->addTerm(own.back().get(), d, impl.back().get()); what += impl.back()->className() + "(" + num(d) + "," + termStr(ts.back()) + ") ";
        }
        what += "]"; term = agg.get();
    } else {
        int n = r.range(1, 16); std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(r.below(9) / 8.0);
        if (r.chance(0.2)) v[r.below(n)] = NaN;
        if (r.chance(0.1)) v[r.below(n)] = Inf;
        if (r.chance(0.1)) v.assign(n, r.coin() ? 0.0 : 0.5);
        single.reset(new Steps(v, lo, hi)); term = single.get(); what = "steps" + vecStr(v);
    }
    int res = r.chance(0.1) ? 1 : r.chance(0.1) ? 2 : r.chance(0.02) ? r.range(2000, 30000) : r.range(3, r.chance(0.1) ? 2000 : 200);
    std::string d = DEF[r.below(5)];
    std::string w2 = " of " + what + " over [" + num(lo) + "," + num(hi) + "] at resolution " + std::to_string(res);
    c.note(d + w2);
    std::unique_ptr<fl::Defuzzifier> df(fl::FactoryManager::instance()->defuzzifier()->constructDefuzzifier(d, res, fl::WeightedDefuzzifier::Automatic));
    if (dynamic_cast<fl::IntegralDefuzzifier*>(df.get())->getResolution() != res) c.violation("resolution", d + " constructed with resolution " + std::to_string(res) + " has another");
    std::vector<double> xs = midpoints(lo, hi, res), ys; for (double x : xs) ys.push_back(term->membership(x));
    std::map<std::string, double> got;
    for (int i = 0; i < 5; ++i) {
        std::unique_ptr<fl::Defuzzifier> q(i == 0 && false ? df->clone() : fl::FactoryManager::instance()->defuzzifier()->constructDefuzzifier(DEF[i], res, fl::WeightedDefuzzifier::Automatic));
        std::unique_ptr<fl::Defuzzifier> cl(q->clone());
        double v = got[DEF[i]] = q->defuzzify(term, lo, hi), u = cl->defuzzify(term, lo, hi);
        c.count("defuzzifications"); c.distinct(DEF[i] + w2);
        if (!same(u, v)) c.violation("clone:" + std::string(DEF[i]), "a clone gives " + num(u) + " instead of " + num(v) + w2);
        Defuzz e = defuzzDef(DEF[i], xs, ys);
        double t = e.tol * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
        if (e.skip) { c.count("skipped ill-conditioned"); continue; }
        bool ok = e.lo != e.lo ? v != v : (v >= e.lo - t && v <= e.hi + t);
        if (!ok) c.violation("definition:" + std::string(DEF[i]), std::string(DEF[i]) + w2 + " is " + num(v) + " but the definition gives " + num(e.lo) + (e.lo == e.hi ? "" : ".." + num(e.hi)));
        bool finiteY = true; for (double y : ys) finiteY = finiteY && std::isfinite(y) && y >= 0;
        if (finiteY && v == v && !(v >= lo - t && v <= hi + t)) c.violation("outside:" + std::string(DEF[i]), std::string(DEF[i]) + w2 + " is " + num(v) + ", outside the range");
        // unbounded or undefined ranges
        static const double B[][2] = {{-Inf, 0}, {0, Inf}, {-Inf, Inf}, {NaN, 1}, {0, NaN}};
        const double* b = B[r.below(5)]; double z = q->defuzzify(term, b[0], b[1]);
        if (z == z) c.violation("unbounded:" + std::string(DEF[i]), std::string(DEF[i]) + " over [" + num(b[0]) + "," + num(b[1]) + "] is " + num(z));
    }
    double s = got["SmallestOfMaximum"], m = got["MeanOfMaximum"], l = got["LargestOfMaximum"], t = 1e-9 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
    if (s == s && m == m && l == l) { c.count("maxima orders"); if (!(s <= m + t && m <= l + t)) c.violation("order", "smallest " + num(s) + ", mean " + num(m) + ", largest " + num(l) + " of maximum are out of order" + w2); }
    if (smooth && res > 20) {   // refine towards the integral
        auto exact = [&](double& area) { int n = 20000; double a = 0, b = 0, dx = (hi - lo) / n; for (int i = 0; i < n; ++i) { double x = lo + (i + 0.5) * dx, y = termDef(ts[0], x); a += x * y; b += y; } area = b * dx; return a / b; };
        if (r.chance(0.1)) {
            double area, e = exact(area);
            if (area > 0.02 * (hi - lo)) { fl::Centroid q(2000); double v = q.defuzzify(term, lo, hi); c.count("integral limits"); if (!(std::fabs(v - e) < 0.01 * (hi - lo))) c.violation("limit", "centroid at resolution 2000" + w2 + " is " + num(v) + " but the integral gives " + num(e)); }
        }
    }
    c.sample(d + w2 + " = " + num(got[d]));
}
Property vf::PROPERTY("P14", 12000, 400000, run, "random terms, aggregated sets and arbitrary step functions (plateaus, NaN, infinite values) defuzzified over random ranges and resolutions; recomputed from the definition over the sampled memberships; distinct counts defuzzifier+set+range+resolution", {{"maxima orders", 5000}, {"integral limits", 20}});
