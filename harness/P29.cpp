#include "probe.hpp"
using namespace vf;
typedef std::vector<std::vector<double> > Rows; typedef fl::Benchmark B;
static std::string g17(double x) { return x != x ? "nan" : std::isinf(x) ? (x < 0 ? "-inf" : "inf") : num(x); }
static double factor(int u) { const double f[] = {1, 1e-3, 1e-6, 1e-9, 1e-9 / 60, 1e-9 / 3600}; return f[u]; }
static bool sameRows(const Rows& a, const Rows& b, std::string& why) { if (a.size() != b.size()) { why = std::to_string(a.size()) + " rows instead of " + std::to_string(b.size()); return false; } for (size_t i = 0; i < a.size(); ++i) { bool ok = a[i].size() == b[i].size(); for (size_t j = 0; ok && j < a[i].size(); ++j) ok = same(a[i][j], b[i][j]); if (!ok) { why = "row " + std::to_string(i + 1) + " is " + vecStr(a[i]) + " instead of " + vecStr(b[i]); return false; } } return true; }
static void run(Ctx& c, Rng& r, long) {
    GenOpts g; g.heavy = 0.04; g.locks = r.coin() ? 0 : 0.3; g.maxIn = 3; g.maxBlocks = 2; g.maxRules = 5; g.maxTerms = 4; g.maxRes = 50; EngineSpec s = genEngine(r, g); bool finiteOut = true;
    std::unique_ptr<fl::Engine> a(buildApi(s)), b(buildApi(s)); Rows log; attach(a.get(), &log); size_t n = s.in.size(), m = s.out.size(); c.note(specStr(s));
    double tol = r.coin() ? 1e-6 : r.coin() ? 1e-3 : 0.05; B bm = r.coin() ? B("bench", a.get(), tol) : B(); bm.setName("bench"); bm.setEngine(a.get()); bm.setTolerance(tol);
    if (bm.getName() != "bench" || bm.getEngine() != a.get() || bm.getTolerance() != tol) c.violation("settings", "the settings of the benchmark do not read back");
    if (r.chance(0.05)) { B e; bool t1, t2, t3; caught([&]() { e.prepare(4, fl::FldExporter::EachVariable); }, &t1); caught([&]() { e.run(1); }, &t2); caught([&]() { e.results(); }, &t3); if (!t1 || !t2 || !t3 || e.canComputeErrors()) c.violation("no-engine", "a benchmark without engine does not fail"); c.count("without engine"); }
    // prepare
    Rows expected; int how = r.below(3); bool outputs = false; std::string ctx;
    // the outputs that direct processing yields for given inputs
    auto direct = [&](Rows& rows, bool& threw) { threw = false; b->restart(); for (auto& row : rows) { for (size_t i = 0; i < n; ++i) b->getInputVariable(i)->setValue(row[i]); caught([&]() { b->process(); }, &threw); if (threw) return; row.resize(n); for (auto o : b->outputVariables()) row.push_back(o->getValue()); } };
    if (how == 0) {
        bool each = r.coin(); long values = each ? r.range(1, n == 1 ? 40 : n == 2 ? 9 : 5) : r.chance(0.3) ? (long) std::pow((double) r.range(2, 6), (double) n) : r.range(1, 200); bm.prepare((int) values, each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables); ctx = std::string(each ? "each " : "all ") + std::to_string(values);
        expected = bm.getExpected(); long k = std::lround(std::pow((double) expected.size(), 1.0 / (double) n)), total = 1; for (size_t i = 0; i < n; ++i) total *= k;
        if (!stepsOk(k, values, n, each) || total != (long) expected.size()) { c.violation("grid-size", std::to_string(expected.size()) + " rows for " + ctx + " with " + std::to_string(n) + " inputs"); return; }
        for (long q = 0; q < total; ++q) { long rest = q; if (expected[q].size() != n) { c.violation("grid-values", "a row of " + std::to_string(expected[q].size()) + " values for " + std::to_string(n) + " inputs"); return; } for (size_t i = n; i-- > 0;) { long p = rest % k; rest /= k; double x = s.in[i].lo + p * (s.in[i].hi - s.in[i].lo) / (double) std::max(1L, k - 1); if (!close(expected[q][i], x, 1e-12)) { c.violation("grid-values", "row " + std::to_string(q + 1) + " of " + ctx + " is " + vecStr(expected[q])); return; } } }
        c.count("grids");
    } else {
        outputs = r.chance(0.8); int nl = r.range(0, 15); Rows rows; for (int i = 0; i < nl; ++i) { std::vector<double> row; for (auto& v : s.in) row.push_back(strtod(dec3(genInput(r, v, false), 6).c_str(), nullptr)); rows.push_back(row); }
        bool t; Rows full = rows; direct(full, t); if (t) outputs = false;
        if (outputs) { rows = full; for (auto& row : rows) for (size_t j = 0; j < m; ++j) if (r.chance(0.3)) { double& x = row[n + j]; switch (r.below(6)) { case 0: x += tol * r.real(0.01, 0.9); break; case 1: x -= tol * r.real(1.1, 50); break; case 2: x += r.real(0.1, 3) + tol * 2; break; case 3: x = NaN; break; case 4: x = r.coin() ? Inf : -Inf; break; default: x -= tol * r.real(0.01, 0.9); } } }
        if (r.chance(0.1) && outputs) { for (auto& row : rows) row.pop_back(); outputs = false; }
        expected = rows;
        if (how == 1) bm.setExpected(rows);
        else {
            std::ostringstream o; long lines = 0, take = -1; Rows kept; bool cut = r.chance(0.2); long limit = r.range(0, nl + 2); bool bad = r.chance(0.05); if (r.coin()) { o << pickS(r, {"in out", "alpha beta gamma x", "a1 b1"}) << "\n"; ++lines; }
            for (size_t i = 0; i < rows.size(); ++i) { while (r.chance(0.1)) { o << pickS(r, {"# 1 2 3", "", "   ", "#"}) << "\n"; ++lines; } o << (r.chance(0.1) ? "  " : ""); for (size_t j = 0; j < rows[i].size(); ++j) o << (j ? r.chance(0.1) ? "\t" : " " : "") << g17(rows[i][j]); ++lines; if (!cut || lines <= limit) kept.push_back(rows[i]); if (i + 1 < rows.size() || r.coin()) o << "\n"; }
            if (cut) take = limit; if (bad) { o << "\n1.0 two 3.0\n"; }
            std::istringstream is(o.str()); bool threw; std::string w = caught([&]() { if (take < 0 && r.coin()) bm.prepare(is); else bm.prepare(is, take); }, &threw); ctx = o.str();
            if (bad && !cut && lines > 0) { c.count("malformed data"); if (!threw) c.violation("malformed", "malformed data is accepted", ctx); return; }
            if (bad) { if (threw) return; kept = bm.getExpected(); }
            if (threw) { c.violation("prepare", "preparing fails: " + w, ctx); return; }
            expected = kept; std::string why; if (!sameRows(bm.getExpected(), expected, why)) { c.violation("prepare", "the expected values differ from the data: " + why, ctx); return; } c.count("tables");
        }
    }
    std::string why; if (!sameRows(bm.getExpected(), expected, why)) { c.violation("expected", why, ctx); return; }
    // run
    if (r.chance(0.3)) caught([&]() { for (size_t i = 0; i < n; ++i) a->getInputVariable(i)->setValue(genInput(r, s.in[i], true)); a->process(); });
    log.clear(); Rows want = expected; for (auto& row : want) row.resize(n); bool t; direct(want, t); int times = r.range(1, 3); std::vector<double> tm; bool threw; bool once = r.chance(0.2);
    std::string w = caught([&]() { if (once) { times = 1; tm.push_back(bm.runOnce()); } else tm = bm.run(times); }, &threw);
    if (threw != t) { c.violation("failure", "running " + (threw ? "fails: " + w : std::string("succeeds")) + " but direct processing " + (t ? "fails" : "succeeds"), ctx); return; }
    if (threw) { c.count("failing runs"); return; }
    c.count("runs", times); c.count("rows run", (long) log.size()); c.distinct(specStr(s) + ctx);
    if ((long) log.size() != times * (long) expected.size()) { c.violation("evaluations", std::to_string(log.size()) + " evaluations in " + std::to_string(times) + " runs of " + std::to_string(expected.size()) + " rows"); return; }
    for (size_t q = 0; q < log.size(); ++q) for (size_t i = 0; i < n; ++i) { double y = want[q % expected.size()][i]; if (s.in[i].lockRange && y == y) y = std::min(std::max(y, s.in[i].lo), s.in[i].hi); if (!same(log[q][i], y)) { c.violation("inputs", "evaluation " + std::to_string(q + 1) + " processes " + vecStr(log[q])); return; } }
    if (!sameRows(bm.getObtained(), want, why)) { c.violation("obtained", "the obtained values differ from direct processing: " + why, ctx + specStr(s)); return; }
    if ((int) tm.size() != times || bm.getTimes().size() != tm.size()) c.violation("times", std::to_string(tm.size()) + " times of " + std::to_string(times) + " runs"); for (double x : tm) if (!(x >= 0) || !std::isfinite(x)) c.violation("times", "a time is " + num(x)); for (size_t i = 0; i < tm.size() && i < bm.getTimes().size(); ++i) if (tm[i] != bm.getTimes()[i]) c.violation("times", "the times kept differ from the times returned");
    if (r.chance(0.2)) { int more = r.range(0, 2); std::vector<double> t2 = bm.run(more); tm.insert(tm.end(), t2.begin(), t2.end()); if (bm.getTimes() != tm) c.violation("times", "the times of further runs are not appended"); if (!sameRows(bm.getObtained(), want, why)) c.violation("obtained", "further runs obtain other values: " + why); }
    // errors by definition
    bool can = !expected.empty() && expected[0].size() == n + m; if (bm.canComputeErrors() != can) { c.violation("can-compute", std::string("errors are ") + (can ? "not " : "") + "reported computable"); return; }
    std::vector<int> all(m, 0), nf(m, 0), acc(m, 0), cnt(m, 0); std::vector<double> sq(m, 0);
    if (can) for (size_t q = 0; q < expected.size(); ++q) for (size_t j = 0; j < m; ++j) {
        double e = expected[q][n + j], o = want[q][n + j], d = e - o; bool eq = e == o || (e != e && o != o) || std::fabs(d) < tol; if (std::isfinite(d) && std::fabs(std::fabs(d) - tol) < 1e-9 * (1 + std::fabs(e))) return;   // too close to call
        if (!eq) { ++all[j]; if (std::isfinite(d)) ++acc[j]; else ++nf[j]; } if (std::isfinite(d) && !eq) { sq[j] += d * d; ++cnt[j]; } c.count("errors judged"); if (!eq) c.count("errors seen");
    }
    auto tot = [&](const std::vector<int>& v) { int x = 0; for (int k : v) x += k; return can ? x : -1; };
    auto chk = [&](const std::string& what, int got, int exp) { if (got != exp) c.violation("errors", what + " is " + std::to_string(got) + " instead of " + std::to_string(exp), ctx); };
    chk("the number of errors", bm.allErrors(), tot(all)); chk("the number of non-finite errors", bm.nonFiniteErrors(), tot(nf)); chk("the number of accuracy errors", bm.accuracyErrors(), tot(acc)); chk("the number of errors", bm.numberOfErrors(B::All), tot(all)); chk("the number of non-finite errors", bm.numberOfErrors(B::NonFinite), tot(nf)); chk("the number of accuracy errors", bm.numberOfErrors(B::Accuracy), tot(acc));
    auto mse = [&](int j) { if (!can) return NaN; double x = 0; int k = 0; for (size_t i = 0; i < m; ++i) if (j < 0 || j == (int) i) { x += sq[i]; k += cnt[i]; } return k ? x / k : x; };
    if (!close(bm.meanSquaredError(), mse(-1), 1e-9)) c.violation("mse", "the mean squared error is " + num(bm.meanSquaredError()) + " instead of " + num(mse(-1)), ctx);
    for (size_t j = 0; j < m; ++j) { fl::OutputVariable* o = a->getOutputVariable(j); chk("the number of errors of an output", bm.allErrors(o), can ? all[j] : -1); chk("the number of non-finite errors of an output", bm.nonFiniteErrors(o), can ? nf[j] : -1); chk("the number of accuracy errors of an output", bm.accuracyErrors(o), can ? acc[j] : -1); chk("the number of errors of an output", bm.numberOfErrors(B::All, o), can ? all[j] : -1); if (!close(bm.meanSquaredError(o), mse((int) j), 1e-9)) c.violation("mse", "the mean squared error of an output is " + num(bm.meanSquaredError(o)) + " instead of " + num(mse((int) j)), ctx); }
    // results
    std::vector<double> ts; for (int k = r.range(0, 4); k-- > 0;) ts.push_back(r.coin() ? std::floor(r.real(0, 1e6)) : r.real(0, 1e12)); bm.setTimes(ts); int unit = r.below(6); bool inc = r.coin(); int sel = r.chance(0.4) ? r.below((int) m) : -1; int d = r.chance(0.5) ? 3 : r.range(0, 9); fl::fuzzylite::setDecimals(d);
    std::vector<B::Result> res = sel < 0 ? bm.results((B::TimeUnit) unit, inc) : bm.results(a->getOutputVariable(sel), (B::TimeUnit) unit, inc); std::map<std::string, std::string> rm; std::vector<std::string> keys; for (auto& p : res) { rm[p.first] = p.second; keys.push_back(p.first); }
    auto txt = [&](const std::string& k, const std::string& v) { if (rm[k] != v) c.violation("results", k + " is '" + rm[k] + "' instead of '" + v + "'", ctx); };
    auto near = [&](const std::string& k, double v, int dec) { std::string x = rm[k]; if (v != v || std::isinf(v)) { if (x != g17(v)) c.violation("results", k + " is " + x + " instead of " + g17(v), ctx); return; } char* e; double y = strtod(x.c_str(), &e); double tol1 = dec < 0 ? std::fabs(v) * 2e-6 + 1e-300 : std::pow(10.0, -dec) * 1.000001 + std::fabs(v) * 1e-12; if (*e || x.empty() || std::fabs(y - v) > tol1) c.violation("results", k + " is " + x + " instead of " + num(v) + " (unit " + std::to_string(unit) + ")", ctx); };
    size_t rules = 0; for (auto k : a->ruleBlocks()) rules += k->numberOfRules(); txt("name", "bench"); txt("library", fl::fuzzylite::library()); txt("inputs", std::to_string(n)); txt("outputs", std::to_string(m)); txt("ruleBlocks", std::to_string(a->numberOfRuleBlocks())); txt("rules", std::to_string(rules)); txt("runs", std::to_string(ts.size())); txt("evaluations", std::to_string(expected.size())); static const char* U[] = {"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours"}; txt("units", U[unit]);
    if (can) {
        std::string names; double range = 0, nr = 0, wt = 0; int k = 0; for (size_t j = 0; j < m; ++j) if (sel < 0 || sel == (int) j) { names += (k ? "," : "") + s.out[j].name; double rg = s.out[j].hi - s.out[j].lo; range += rg; ++k; nr += std::sqrt(mse((int) j)) / rg; wt += 1 / rg; finiteOut = finiteOut && std::isfinite(rg); }
        txt("outputVariable", names); near("range", range / k, d); txt("errors", std::to_string(sel < 0 ? tot(all) : all[sel])); txt("nfErrors", std::to_string(sel < 0 ? tot(nf) : nf[sel])); txt("accErrors", std::to_string(sel < 0 ? tot(acc) : acc[sel]));
        double rm1 = std::sqrt(mse(sel)); if (rm1 > 1e-5 || rm1 == 0) near("rmse", rm1, -1); if (nr / wt > 1e-5 || nr == 0) near("nrmse", nr / wt, -1); near("tolerance", tol, 9);
    } else for (const char* k : {"errors", "nfErrors", "accErrors", "rmse", "nrmse"}) if (rm.count(k)) c.violation("results", std::string(k) + " is reported though errors cannot be computed");
    double sum = 0, mean = NaN, sd = NaN; for (double x : ts) sum += x; if (!ts.empty()) { mean = sum / ts.size(); double q = 0; for (double x : ts) q += (x - mean) * (x - mean); sd = ts.size() > 1 ? std::sqrt(q / (ts.size() - 1)) : 0; }
    near("sum(t)", sum * factor(unit), unit == 0 ? 0 : d); near("mean(t)", mean * factor(unit), d); near("sd(t)", sd * factor(unit), d);
    for (size_t i = 0; i < ts.size(); ++i) { std::string k = "t" + std::to_string(i + 1); if (inc) near(k, ts[i] * factor(unit), unit == 0 ? 0 : d); else if (rm.count(k)) c.violation("results", "the times are reported though they are not wanted"); } if (rm.count("t" + std::to_string(ts.size() + 1))) c.violation("results", "more times than runs"); c.count("results", (long) res.size());
    if (B::stringOf((B::TimeUnit) unit) != U[unit] || !close(B::factorOf((B::TimeUnit) unit), factor(unit), 1e-12)) c.violation("units", "unit " + std::to_string(unit)); int u2 = r.below(6); double x = r.real(0, 1e9); if (!close(B::convert(x, (B::TimeUnit) unit, (B::TimeUnit) u2), x * factor(u2) / factor(unit), 1e-12)) c.violation("convert", num(x));
    // header and format
    if (sel < 0 && inc) { std::vector<std::string> h = bm.header((int) ts.size(), can); if (h != keys) c.violation("header", "the header differs from the keys of the results"); }
    { std::string dl = pickS(r, {"\t", ",", " | "}); for (int sh = 0; sh < 2; ++sh) for (int ct = 1; ct <= 3; ++ct) { std::string f = bm.format(res, sh ? B::Vertical : B::Horizontal, (B::TableContents) ct, dl), e; if (sh) for (size_t i = 0; i < res.size(); ++i) e += (i ? "\n" : "") + (ct & 1 ? res[i].first : "") + (ct == 3 ? dl : "") + (ct & 2 ? res[i].second : ""); else { for (int q = 1; q <= 2; ++q) if (ct & q) { if (q == 2 && ct == 3) e += "\n"; for (size_t i = 0; i < res.size(); ++i) e += (i ? dl : "") + (q == 1 ? res[i].first : res[i].second); } } if (f != e) c.violation("format", "the table is " + f + " instead of " + e); c.count("tables formatted"); } }
    if (r.chance(0.2)) { bm.reset(); if (!bm.getTimes().empty() || !bm.getObtained().empty()) c.violation("reset", "values are left after a reset"); if (!sameRows(bm.getExpected(), expected, why)) c.violation("reset", "a reset changes the expected values"); if (bm.canComputeErrors() || bm.allErrors() != -1 || !std::isnan(bm.meanSquaredError())) c.violation("reset", "errors are computed after a reset"); c.count("resets"); }
    if (r.chance(0.1) && n > 0 && !expected.empty()) { expected[r.below((int) expected.size())].resize(n - 1); bm.setExpected(expected); bool q; std::string z = caught([&]() { bm.run(1); }, &q); c.count("short rows"); if (!q || z.size() < 8) c.violation("short", "a row with too few inputs is run"); }
}
Property vf::PROPERTY("P29", 8000, 150000, run, "one benchmark (grid, table or given rows; expected outputs exact, within and beyond the tolerance, NaN, infinite) over one engine: a probe records every evaluation, another engine processes the rows directly, errors and statistics are recomputed by definition; distinct: engine and rows",
    {{"runs", 5000}, {"rows run", 50000}, {"errors judged", 20000}, {"errors seen", 4000}, {"results", 20000}, {"grids", 1000}, {"tables", 1000}});
