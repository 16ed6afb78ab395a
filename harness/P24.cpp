#include "probe.hpp"
using namespace vf;
typedef std::vector<std::vector<double> > Rows;
static std::vector<std::string> splitBy(const std::string& s, const std::string& sep) { std::vector<std::string> v; size_t i = 0; for (;;) { size_t j = s.find(sep, i); v.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) return v; i = j + sep.size(); } }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static void run(Ctx& c, Rng& r, long) {
    int d = r.chance(0.6) ? 3 : r.range(0, 9); 
    GenOpts g; g.heavy = 0.04; g.locks = r.coin() ? 0 : 0.3; g.maxIn = r.chance(0.8) ? 3 : 5; g.maxBlocks = 2; g.maxRules = 5; g.maxTerms = 4; g.maxRes = 60; EngineSpec s = genEngine(r, g);
    fl::fuzzylite::setDecimals(3); std::unique_ptr<fl::Engine> a(buildApi(s)), b(buildApi(s)); fl::fuzzylite::setDecimals(d);
    Rows log; attach(a.get(), &log); size_t n = s.in.size();
    std::string sep = pickS(r, {" ", " ", "\t", ",", ";", ", ", " | "}); fl::FldExporter ex(sep); if (r.coin()) { ex = fl::FldExporter(); ex.setSeparator(sep); }
    bool hd = true, in = true, out = true; if (r.chance(0.5)) { hd = r.coin(); in = r.chance(0.7); out = r.chance(0.7); ex.setExportHeader(hd); ex.setExportInputValues(in); ex.setExportOutputValues(out); }
    if (ex.getSeparator() != sep || ex.exportsHeader() != hd || ex.exportsInputValues() != in || ex.exportsOutputValues() != out) c.violation("options", "the options of the exporter do not read back");
    if (r.chance(0.1)) { std::unique_ptr<fl::FldExporter> k(ex.clone()); ex = *k; }
    std::string head; { std::vector<std::string> h; if (in) for (auto& v : s.in) h.push_back(v.name); if (out) for (auto& v : s.out) h.push_back(v.name); for (size_t i = 0; i < h.size(); ++i) head += (i ? sep : "") + h[i]; }
    if (ex.header(a.get()) != head) c.violation("header", "the header is '" + ex.header(a.get()) + "' instead of '" + head + "'");
    // initial state: values of the inputs, sometimes after other processing
    for (size_t i = 0; i < n; ++i) { double x = r.chance(0.2) ? NaN : genInput(r, s.in[i], false); a->getInputVariable(i)->setValue(x); b->getInputVariable(i)->setValue(x); }
    if (r.chance(0.3)) { bool t; std::string w = caught([&]() { a->process(); b->process(); }, &t); if (t) return; log.clear(); }
    std::vector<double> init; for (auto v : b->inputVariables()) init.push_back(v->getValue());
    std::string text; bool threw = false; std::string why; Rows want; std::vector<bool> blank; std::string ctx;
    std::string file = scratchDir() + "/d.fld"; int how = r.below(3);
    if (r.chance(0.6)) {
        bool each = r.coin(); long values; { long cap = n <= 2 ? 400 : 600; if (each) { long m = (long) std::pow((double) cap, 1.0 / (double) n); values = r.range(1, (int) std::max(2L, m)); } else values = r.chance(0.2) ? r.range(1, 3) : r.chance(0.2) ? (long) std::pow((double) r.range(2, n > 2 ? 8 : 20), (double) n) : r.range(1, (int) cap); }
        std::vector<bool> act(n, true); bool sub = n > 1 && r.chance(0.4); if (sub) for (size_t i = 0; i < n; ++i) act[i] = r.coin();
        if (!sub && r.chance(0.03)) { each = false; values = 1024; how = 3; }
        std::vector<fl::InputVariable*> av = a->inputVariables(); for (size_t i = 0; i < n; ++i) if (!act[i]) av[i] = r.coin() ? nullptr : a->getInputVariable((i + 1) % n);
        fl::FldExporter::ScopeOfValues sc = each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables; ctx = std::string(each ? "each" : "all") + " values " + std::to_string(values) + " inputs " + std::to_string(n); c.note(ctx + "\n" + specStr(s));
        why = caught([&]() {
            if (how == 3) text = ex.toString((const fl::Engine*) a.get());
            else if (how == 0) text = sub ? ex.toString(a.get(), (int) values, sc, av) : ex.toString(a.get(), (int) values, sc);
            else if (how == 1) { if (sub) ex.toFile(file, a.get(), (int) values, sc, av); else ex.toFile(file, a.get(), (int) values, sc); text = readFile(file); }
            else { std::ostringstream o; if (sub) ex.write(a.get(), o, (int) values, sc, av); else ex.write(a.get(), o, (int) values, sc); text = o.str(); } }, &threw);
        // the grid expected, as many values per variable as the text has
        size_t active = 0; for (bool k : act) active += k;
        if (!threw) {
            long rows = (long) log.size(), k = 1; if (active) { k = std::lround(std::pow((double) rows, 1.0 / (double) active)); } else k = each ? values : 1;
            if (active && !stepsOk(k, values, n, each)) { c.violation("grid-size", "a grid of " + std::to_string(rows) + " rows for " + ctx + " (" + std::to_string(active) + " active)"); return; }
            long total = 1; for (size_t i = 0; i < active; ++i) total *= k;
            if (total != rows) { c.violation("grid-size", std::to_string(rows) + " rows are not a complete grid for " + ctx); return; }
            for (long q = 0; q < total; ++q) { std::vector<double> row(n); long rest = q; for (size_t i = n; i-- > 0;) { const VarSpec& v = s.in[i]; if (!act[i]) { row[i] = init[i]; continue; } long p = rest % k; rest /= k; row[i] = v.lo + p * (v.hi - v.lo) / (double) std::max(1L, k - 1); } want.push_back(row); }
            for (size_t q = 0; q < want.size(); ++q) for (size_t i = 0; i < n; ++i) {
                double x = log[q][i], y = want[q][i]; bool lock = s.in[i].lockRange; if (lock && y == y) y = std::min(std::max(y, s.in[i].lo), s.in[i].hi);
                if (!close(x, y, 1e-12)) { c.violation("grid-values", "row " + std::to_string(q + 1) + " processes " + vecStr(log[q]) + " instead of " + vecStr(want[q]) + " for " + ctx); return; }
            }
            blank.assign(want.size(), false); c.count("grids"); c.count("grid rows", rows); c.distinct(text); if (sub) c.count("grids of some inputs");
        }
    } else {
        std::ostringstream o; int nl = r.range(0, 12); bool malformed = false; int w = 0; std::vector<bool> rowBlank; Rows rows; bool stop = false;
        for (int i = 0; i < nl; ++i) {
            int k = r.below(20);
            if (i == 0 && r.chance(0.4)) { o << pickS(r, {"alpha beta out", "x", "time value # 1", "a b c d e f g"}) << "\n"; continue; }
            if (k == 0) { o << pickS(r, {"# comment 1 2", "#", "   # 1 2 3"}) << "\n"; continue; }
            if (k == 1) { o << pickS(r, {"", "   ", "\t"}) << "\n"; if (!stop) { rows.push_back({}); rowBlank.push_back(true); } continue; }
            if (k == 2 && r.chance(0.4) && i > 0) { w = r.below(2); malformed = true; stop = true; if (w == 0 && n > 1) { for (size_t j = 0; j + 1 < n; ++j) o << "1.0 "; o << "\n"; } else { for (size_t j = 0; j < n; ++j) o << (j ? "0.1 " : pickS(r, {"one ", "1,5 ", "0x ", "- ", "1.2.3 "})); o << "\n"; } continue; }
            std::vector<double> row; o << (r.chance(0.2) ? "  " : ""); size_t extra = r.chance(0.2) ? r.range(1, 3) : 0;
            for (size_t j = 0; j < n + extra; ++j) { double x = j < n ? genInput(r, s.in[j], false) : r.dec(-1, 1); std::string t = j < n && r.chance(0.05) ? pickS(r, {"nan", "inf", "-inf"}) : dec3(x, 6); x = t == "nan" ? NaN : t == "inf" ? Inf : t == "-inf" ? -Inf : strtod(t.c_str(), nullptr); o << (j ? pickS(r, {" ", "  ", "\t"}) : "") << t; if (j < n) row.push_back(x); }
            o << (i + 1 == nl && r.coin() ? "" : r.chance(0.1) ? "  \n" : r.chance(0.1) ? "\r\n" : "\n"); if (!stop) { rows.push_back(row); rowBlank.push_back(false); }
        }
        std::istringstream is(o.str()); ctx = o.str(); c.note(ctx + "\n" + specStr(s));
        if (how == 2 && r.chance(0.3)) { std::ostringstream q; why = caught([&]() { if (hd) q << head << "\n"; for (size_t i = 0; i < rows.size(); ++i) ex.write(a.get(), q, rows[i]); }, &threw); text = q.str(); malformed = false; c.count("rows written directly", (long) rows.size()); }
        else why = caught([&]() { if (how == 0) text = ex.toString(a.get(), is); else if (how == 1) { ex.toFile(file, a.get(), is); text = readFile(file); } else { std::ostringstream q; ex.write(a.get(), q, is); text = q.str(); } }, &threw);
        if (malformed) { c.count("malformed data"); if (!threw) c.violation("malformed-accepted", "malformed data is exported", ctx); else if (why.size() < 8) c.violation("message", "the exception has no message"); return; }
        want = rows; blank = rowBlank;
        if (!threw) {
            size_t nb = 0; for (bool k : blank) nb += !k; c.count("tables"); c.count("table rows", (long) nb); c.distinct(text); if (log.size() != nb) { c.violation("rows-processed", std::to_string(log.size()) + " rows are processed instead of " + std::to_string(nb), ctx); return; }
            size_t k = 0; for (size_t q = 0; q < want.size(); ++q) if (!blank[q]) { for (size_t i = 0; i < n; ++i) { double y = want[q][i]; if (s.in[i].lockRange && y == y) y = std::min(std::max(y, s.in[i].lo), s.in[i].hi); if (!same(log[k][i], y)) { c.violation("row-values", "a row processes " + vecStr(log[k]) + " instead of " + vecStr(want[q]), ctx); return; } } ++k; }
        }
    }
    // the text against direct processing of the same inputs
    std::vector<std::string> ls = lines(text); size_t li = 0; size_t k = 0;
    if (hd) { if (ls.empty() || ls[0] != head) { c.violation("header", "the first line is not the header", text.substr(0, 500)); return; } li = 1; }
    for (size_t q = 0; q < want.size() || threw; ++q) {
        if (threw && k >= log.size()) break;     // a processing that fails also fails directly
        if (!threw && blank[q]) { if (li >= ls.size() || !ls[li].empty()) { c.violation("blank", "a blank line is not retained", ctx + "\n--\n" + text.substr(0, 2000)); return; } ++li; continue; }
        for (size_t i = 0; i < n; ++i) b->getInputVariable(i)->setValue(log[k][i]);
        bool t; caught([&]() { b->process(); }, &t);
        if (t || (threw && k + 1 == log.size())) { if (t != (threw && k + 1 == log.size())) c.violation("failure", "exporting " + std::string(threw ? "fails: " + why : "succeeds") + " but direct processing " + (t ? "fails" : "succeeds"), ctx); c.count("failing exports"); return; }
        if (threw) { ++k; continue; }
        ++k;
        if (li >= ls.size()) { c.violation("rows", "the text ends after " + std::to_string(li) + " lines", ctx); return; }
        std::vector<std::string> cells = splitBy(ls[li], sep); std::vector<double> vals; if (in) for (size_t i = 0; i < n; ++i) vals.push_back(want[q][i]); if (out) for (auto o : b->outputVariables()) vals.push_back(o->getValue());
        bool ok = vals.empty() ? ls[li].empty() : cells.size() == vals.size(); for (size_t i = 0; ok && i < vals.size(); ++i) ok = cellOk(cells[i], vals[i], d) || (in && i < n && std::isfinite(vals[i]) && (std::fabs(strtod(cells[i].c_str(), nullptr) - vals[i]) <= 0.5001 * std::pow(10.0, -d)) && cells[i].size() == cell(vals[i], d).size());
        if (!ok) { c.violation("row", "line " + std::to_string(li + 1) + " is '" + ls[li] + "' instead of the values " + vecStr(vals), ctx + "\n" + specStr(s)); return; }
        c.count("cells compared", (long) vals.size()); ++li;
    }
    if (!threw && li != ls.size()) c.violation("rows", "the text has " + std::to_string(ls.size() - li) + " more lines", ctx);
    if (!threw && !text.empty() && text.back() != '\n') c.violation("rows", "the last line is not terminated", ctx);
    if (c.wantSample()) c.sample(ctx + "\n" + text.substr(0, 400));
}
Property vf::PROPERTY("P24", 8000, 150000, run, "one engine, separator, decimals and options with a grid (scope, number of values, active inputs) or a table (header, comments, blank lines, spacing, extra columns, malformed lines), by text, file or stream; a probe inside the engine records the inputs of every processing, a second engine processes them directly; distinct: exported texts",
    {{"grids", 3000}, {"grid rows", 100000}, {"grids of some inputs", 500}, {"tables", 1000}, {"table rows", 5000}, {"cells compared", 200000}, {"malformed data", 100}});
