#include "formula.hpp"
using namespace vf;
static double degree(Rng& r) {
    switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 0.5; case 3: return 0.5 + r.real(-1e-6, 1e-6); case 4: return r.unit() * 1e-8; case 5: return 1 - r.unit() * 1e-8; default: return r.unit(); }
}
static void run(Ctx& c, Rng& r, long idx) {
    double x = degree(r), y = degree(r); if (idx < 1001) x = idx / 1000.0;
    if (y < x) std::swap(x, y);
    c.note("hedges at " + num(x) + " " + num(y));
    fl::HedgeFactory* f = fl::FactoryManager::instance()->hedge();
    for (int i = 0; i < 6; ++i) {
        std::string n = HEDGES[i];
        std::unique_ptr<fl::Hedge> h(f->constructObject(n));
        if (h->name() != n) c.violation("name:" + n, "hedge constructed as " + n + " is called " + h->name());
        std::unique_ptr<fl::Hedge> g(h->clone());
        double a = h->hedge(x), b = h->hedge(y);
        c.count("evaluations"); c.distinct(n + num(x));
        if (!close(a, hedgeDef(n, x), 1e-9)) c.violation("definition:" + n, n + "(" + num(x) + ")=" + num(a) + " but the definition gives " + num(hedgeDef(n, x)));
        if (!(a >= 0 && a <= 1)) c.violation("range:" + n, n + "(" + num(x) + ")=" + num(a));
        if (n == "not" ? a < b - 1e-12 : a > b + 1e-12) c.violation("monotone:" + n, n + " is not monotone: " + num(x) + "->" + num(a) + ", " + num(y) + "->" + num(b));
        if (!same(g->hedge(x), a)) c.violation("clone:" + n, "a clone of " + n + " gives " + num(g->hedge(x)));
        double e0 = h->hedge(0), e1 = h->hedge(1);
        if (n == "any" ? e0 != 1 || e1 != 1 : n == "not" ? e0 != 1 || e1 != 0 : std::fabs(e0) > 1e-12 || std::fabs(e1 - 1) > 1e-12) c.violation("ends:" + n, n + "(0)=" + num(e0) + " " + n + "(1)=" + num(e1));
        double q = h->hedge(NaN);
        if (n == "any" ? q != 1 : q == q) c.violation("nan:" + n, n + "(NaN)=" + num(q));
        if (!same(h->hedge(x), a)) c.violation("stateful:" + n, n + " changed its value after other evaluations");
    }
    // custom hedge
    FA ast = fgen(r, {"x"}, 3, r.coin()); std::string txt = fprint(ast, &r);
    c.note("custom hedge " + txt);
    fl::HedgeFunction hf;
    for (int k = r.below(3); k > 0; --k) {   // an object that had other formulas before
        FA o = fgen(r, {"x"}, 2, true); std::string ot = fprint(o, &r);
        if (r.chance(0.2)) { if (caught([&]() { hf.setFormula(r.coin() ? "(x" : "x +"); }).compare(0, 3, "fl:")) c.violation("custom-malformed", "a malformed formula of a hedge is accepted"); continue; }
        if (r.coin()) hf.setFormula(ot); else hf = fl::HedgeFunction(ot);
        double z = degree(r); Env e; e["x"] = z; FEval st; double want = feval(o, e, &st), got = hf.hedge(z);
        if (!st.fragile && fmag(o, e) < 1e12 && !close(got, want, 1e-9 * std::max(1.0, fmag(o, e)))) c.violation("custom-reused", "custom hedge '" + ot + "' at " + num(z) + " gives " + num(got) + " but the formula gives " + num(want));
        c.count("formulas changed");
    }
    hf.setFormula(txt);
    fl::HedgeFunction h2(txt); std::unique_ptr<fl::Hedge> h3(h2.clone());
    for (int k = 0; k < 4; ++k) {
        double z = !k ? x : r.chance(0.15) ? r.real(-1, 3) : degree(r); Env e; e["x"] = z; FEval st; double want = feval(ast, e, &st), m = fmag(ast, e);
        if (st.fragile || m > 1e12) { c.count("skipped ill-conditioned"); continue; }
        double got[3] = {hf.hedge(z), h2.hedge(z), h3->hedge(z)};
        c.count("custom evaluations");
        for (double v : got) if (!close(v, want, 1e-9 * std::max(1.0, m))) { c.violation("custom", "custom hedge '" + txt + "' at " + num(z) + " gives " + num(v) + " but the formula gives " + num(want)); break; }
    }
    if (hf.getFormula() != txt) c.violation("custom-formula", "formula read back as '" + hf.getFormula() + "' instead of '" + txt + "'");
    c.sample("hedges at " + num(x) + ", custom " + txt);
}
Property vf::PROPERTY("P11", 12000, 600000, run, "every hedge at generated and grid degrees against its definition, and random custom formulas against their own evaluation; distinct counts hedge+degree pairs", {{"custom evaluations", 1000}, {"formulas changed", 1000}});
