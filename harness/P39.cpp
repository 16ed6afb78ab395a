#include "spec.hpp"
using namespace vf; using namespace fl;
typedef Discrete::Pair Pair;
static std::string ps(const std::vector<Pair>& v) { std::string s; for (auto& p : v) s += "(" + num(p.first) + "," + num(p.second) + ") "; return s; }
static bool eqp(const std::vector<Pair>& a, const std::vector<Pair>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i].first, b[i].first) || !same(a[i].second, b[i].second)) return false; return true; }
static void run(Ctx& c, Rng& r, long idx) {
    int n = r.chance(0.05) ? 0 : r.range(1, r.chance(0.1) ? 60 : 9); std::vector<Pair> v; std::vector<double> flat;
    std::set<double> used;
    for (int i = 0; i < n; ++i) { double x; do x = r.dec(-20, 20, r.range(0, 3)); while (used.count(x)); used.insert(x); v.push_back(Pair(x, r.chance(0.1) ? (r.coin() ? 0.0 : 1.0) : r.dec(-0.2, 1.2))); }
    bool special = r.chance(0.1) && n; if (special) v[r.below(n)].second = r.coin() ? NaN : Inf;
    for (auto& p : v) { flat.push_back(p.first); flat.push_back(p.second); }
    c.note(ps(v)); c.distinct(ps(v));
    if (!eqp(Discrete::toPairs(flat), v)) c.violation("toPairs", "toPairs of " + vecStr(flat) + " gives " + ps(Discrete::toPairs(flat)));
    std::vector<double> back = Discrete::toVector(v); bool ok = back.size() == flat.size(); for (size_t i = 0; ok && i < back.size(); ++i) ok = same(back[i], flat[i]);
    if (!ok) c.violation("toVector", "toVector of " + ps(v) + " gives " + vecStr(back));
    if (!eqp(Discrete::toPairs(flat, 7.0), v)) c.violation("toPairs-even", "toPairs with a missing value changes an even list " + vecStr(flat));
    std::vector<double> odd = flat; odd.push_back(r.dec(-5, 5));
    std::vector<Pair> vo = v; double miss = r.coin() ? NaN : r.dec(0, 1); vo.push_back(Pair(odd.back(), miss));
    if (!eqp(Discrete::toPairs(odd, miss), vo)) c.violation("toPairs-missing", "toPairs of " + vecStr(odd) + " with missing value " + num(miss) + " gives " + ps(Discrete::toPairs(odd, miss)));
    if (caught([&]() { Discrete::toPairs(odd); }).compare(0, 3, "fl:")) c.violation("toPairs-odd", "an odd list is accepted");
    if (n) {   // text
        std::string txt = Discrete::formatXY(v, "(", ",", ")", " "), want; for (int i = 0; i < n; ++i) want += (i ? " " : "") + ("(" + Op::str(v[i].first) + "," + Op::str(v[i].second) + ")");
        if (txt != want) c.violation("formatXY", "formatted as " + txt);
        std::string bare = Discrete::formatXY(v, "", " ", "", " ");
        if (!special) {
            Discrete d("d"); d.configure(bare);
            std::vector<Pair> g = d.xy(); bool q = g.size() == v.size(); for (size_t i = 0; q && i < g.size(); ++i) q = close(g[i].first, v[i].first, 1e-9) && close(g[i].second, v[i].second, 1e-9);
            if (!q) c.violation("configure", "configured from '" + bare + "' as " + ps(d.xy()));
            Discrete f("f", v); f.setHeight(r.coin() ? 1.0 : r.dec(0.1, 0.9)); Discrete f2("f"); f2.configure(f.parameters());
            std::string df = diffTerms(&f, &f2); if (!df.empty()) c.violation("parameters", "'" + f.parameters() + "': " + df);
        }
    }
    if (n && r.chance(0.3)) {   // points that share abscissas are kept, in order, by every conversion
        std::vector<Pair> m = v; int extra = r.range(1, 4); for (int i = 0; i < extra; ++i) m.insert(m.begin() + r.below((int) m.size() + 1), Pair(r.chance(0.3) ? m.back().first : m[r.below((int) m.size())].first, r.dec(0, 1)));
        std::vector<double> fm; std::string want; for (size_t i = 0; i < m.size(); ++i) { fm.push_back(m[i].first); fm.push_back(m[i].second); want += (i ? "; " : "") + ("<" + Op::str(m[i].first) + "|" + Op::str(m[i].second) + ">"); }
        std::string txt = Discrete::formatXY(m, "<", "|", ">", "; "); if (txt != want) c.violation("formatXY", "formatted as " + txt + " instead of " + want);
        if (!eqp(Discrete::toPairs(fm), m)) c.violation("toPairs", "toPairs of " + vecStr(fm) + " gives " + ps(Discrete::toPairs(fm)));
        std::vector<double> bm = Discrete::toVector(m); bool okm = bm.size() == fm.size(); for (size_t i = 0; okm && i < bm.size(); ++i) okm = same(bm[i], fm[i]); if (!okm) c.violation("toVector", "toVector of " + ps(m) + " gives " + vecStr(bm));
        Discrete e("e"); e.setXY(m); if (!eqp(e.xy(), m)) c.violation("accessors", "the points set are not those of the term: " + ps(m));
        Discrete g("g"); g.configure(e.parameters()); bool q = g.xy().size() == m.size(); for (size_t i = 0; q && i < m.size(); ++i) q = same(g.xy()[i].first, m[i].first) && (special || close(g.xy()[i].second, m[i].second, 1e-9)); if (!q) c.violation("parameters", "'" + e.parameters() + "' configures " + ps(g.xy()));
        e.sort(); std::vector<Pair> s1 = e.xy(), s2 = m; auto full = [](const Pair& a, const Pair& b) { return a.first < b.first || (a.first == b.first && num(a.second) < num(b.second)); };
        for (size_t i = 0; i + 1 < s1.size(); ++i) if (s1[i].first > s1[i + 1].first) c.violation("sort-member", "not sorted: " + ps(s1));
        if (r.chance(0.4)) {   // as are points that are repeated exactly, whichever sort is used
            std::vector<Pair> rep = m; for (int i = r.range(1, 3); i-- > 0;) { Pair q = rep[r.below((int) rep.size())]; rep.insert(rep.begin() + r.below((int) rep.size() + 1), q); }
            std::vector<Pair> by = rep; Discrete::sort(by); Discrete mem("m", rep); mem.sort(); std::vector<Pair> s3 = mem.xy(), w3 = rep; bool up = true;
            for (size_t i = 0; i + 1 < by.size(); ++i) up = up && by[i].first <= by[i + 1].first; for (size_t i = 0; i + 1 < s3.size(); ++i) up = up && s3[i].first <= s3[i + 1].first;
            std::string got = ps(by) + " and " + ps(s3); std::sort(by.begin(), by.end(), full); std::sort(s3.begin(), s3.end(), full); std::sort(w3.begin(), w3.end(), full); c.count("repeated points");
            if (!up || !eqp(by, w3) || !eqp(s3, w3)) c.violation("sort", "sorting " + ps(rep) + " gives " + got);
        }
        std::sort(s1.begin(), s1.end(), full); std::sort(s2.begin(), s2.end(), full); if (!eqp(s1, s2)) c.violation("sort-member", "sorting changes the points: " + ps(e.xy()) + " from " + ps(m));
        c.count("repeated abscissas");
        if (!special) {   // whatever was evaluated before (and whatever points it had before), the membership is that of a fresh term with the same points
            std::unique_ptr<Discrete> used(new Discrete("u", r.coin() ? m : v)); used->sort(); if (r.coin()) { used->membership(r.real(-20, 20)); used->membership(m[r.below((int) m.size())].first); } used->setXY(m); used->sort();
            std::vector<Pair> now = used->xy();
            for (int k = 0; k < 16; ++k) {
                if (r.chance(0.1)) { int i = r.below((int) now.size()); now[i].second = used->xy(i).second = r.dec(0, 1); }
                double x = r.chance(0.6) ? now[r.below((int) now.size())].first : r.real(-22, 22), y = used->membership(x), z = Discrete("z", now).membership(x); c.count("memberships after others");
                if (!close(y, z, 1e-9)) { c.violation("history", "at " + num(x) + " the term gives " + num(y) + " after other points and " + num(z) + " before any: " + ps(now)); break; }
            }
        }
    }
    // accessors
    Discrete d("d", v);
    ok = d.x().size() == v.size() && d.y().size() == v.size(); for (int i = 0; ok && i < n; ++i) ok = same(d.x()[i], v[i].first) && same(d.y()[i], v[i].second) && same(d.x(i), v[i].first) && same(d.y(i), v[i].second) && same(d.xy(i).first, v[i].first) && same(d.xy(i).second, v[i].second);
    if (!ok) c.violation("accessors", "x/y accessors disagree with the points " + ps(v));
    if (caught([&]() { d.xy(n); }).empty() || caught([&]() { d.x(n); }).empty()) c.violation("accessor-range", "a point beyond the end is returned");
    // sort
    std::vector<Pair> s = v, want = v; Discrete::sort(s); std::stable_sort(want.begin(), want.end(), [](const Pair& a, const Pair& b) { return a.first < b.first; });
    if (!eqp(s, want)) c.violation("sort", "sorted " + ps(v) + " into " + ps(s));
    d.sort(); if (!eqp(d.xy(), want)) c.violation("sort-member", "sorted " + ps(v) + " into " + ps(d.xy()));
    c.count("sorts");
    // passes through its points and is linear between them
    if (n && !special) {
        double minGap = Inf; for (int i = 1; i < n; ++i) minGap = std::min(minGap, want[i].first - want[i - 1].first);
        TermSpec t; t.cls = "Discrete"; t.name = "d"; for (auto& p : want) { t.p.push_back(p.first); t.p.push_back(p.second); }
        double h = r.coin() ? 1.0 : r.dec(0.1, 2); d.setHeight(h); t.height = h;
        for (int i = 0; i < n; ++i) {
            double y = d.membership(want[i].first); c.count("points");
            if (!close(y, h * want[i].second, 1e-9)) c.violation("through-points", "at its point " + num(want[i].first) + " the term gives " + num(y) + ": " + ps(want));
            if (i + 1 < n) for (int k = 0; k < 3; ++k) {
                double a = k == 2 ? 0.5 : r.unit(), x = want[i].first + a * (want[i + 1].first - want[i].first), z = d.membership(x), lin = h * (want[i].second + (x - want[i].first) / (want[i + 1].first - want[i].first) * (want[i + 1].second - want[i].second));
                double slope = std::fabs(h * (want[i + 1].second - want[i].second) / (want[i + 1].first - want[i].first));
                if (!(std::fabs(z - lin) <= 1e-9 + slope * 2e-6)) c.violation("linear-between", "between points at " + num(x) + " the term gives " + num(z) + " instead of " + num(lin) + ": " + ps(want));
            }
        }
        if (d.membership(want[0].first - r.real(0, 9)) != h * want[0].second || d.membership(want[n - 1].first + r.real(0, 9)) != h * want[n - 1].second) c.violation("outside", "outside its points the term does not keep the end values: " + ps(want));
        (void) minGap;
    }
    if (!n) { if (caught([&]() { d.membership(0.5); }).compare(0, 3, "fl:")) c.violation("empty", "an empty discrete term has a membership"); }
    // discretise a term
    TermSpec t = genShape(r, SHAPES[r.below(18)], -5, 5, "src"); if (r.chance(0.2)) t.height = r.dec(1, 3);
    if (r.chance(0.15)) t.height = r.coin() ? NaN : r.coin() ? Inf : -r.dec(0, 2);
    std::unique_ptr<Term> term(buildTerm(t)); bool odds = false;
    if (r.chance(0.1)) { odds = true; term.reset(Function::create("src", pickS(r, {"1/(x-x)", "x/0", "0/(x-1)", "sqrt(x)", "log(x)", "2*x"}))); }
    // (some terms have no value somewhere)
    double a = r.dec(-7, 0), b = a + r.dec(0.5, 10); int res = r.range(1, 50); bool bounded = r.coin();
    c.note(termStr(t));
    std::unique_ptr<Discrete> q(Discrete::discretize(term.get(), a, b, res, bounded));
    c.count("discretisations");
    std::string w = "discretising " + termStr(t) + " over [" + num(a) + "," + num(b) + "] at " + std::to_string(res) + " ";
    if ((int) q->xy().size() != res + 1) c.violation("discretize-count", w + "gives " + std::to_string(q->xy().size()) + " points");
    else for (int i = 0; i <= res; ++i) {
        double x = a + i * (b - a) / res; const Pair& p = q->xy(i);
        if (!close(p.first, x, 1e-9)) { c.violation("discretize-x", w + "has point " + std::to_string(i) + " at " + num(p.first) + " instead of " + num(x)); break; }
        double y = term->membership(p.first); if (bounded) y = y < 0 ? 0 : y > 1 ? 1 : y;
        if (y != y || p.second != p.second) c.count("ordinates without a value");
        if (!close(p.second, y, 1e-9) && (odds || !termAccept(t, p.first, p.second))) { c.violation("discretize-y", w + "at " + num(x) + " has " + num(p.second) + " instead of " + num(y)); break; }
    }
    if (q->getName() != "src") c.violation("discretize-name", w + "is called " + q->getName());
    std::unique_ptr<Discrete> dc(d.clone()); if (!eqp(dc->xy(), d.xy())) c.violation("clone", "clone has other points");
    c.sample(ps(v));
}
Property vf::PROPERTY("P39", 16000, 500000, run, "random point lists (unsorted, odd, special ordinates) converted, printed, sorted and evaluated against direct definitions; random terms discretised; distinct counts point lists", {{"points", 20000}, {"discretisations", 1000}, {"repeated points", 800}});
