#include "probe.hpp"
using namespace vf;
typedef std::vector<std::vector<double> > Rows;
// value of the string literal assigned to a name; false when there is none or it is not well-formed
static bool strOf(const std::string& t, const std::string& name, std::string& v, int& n) {
    n = 0; bool ok = false; size_t i = 0; std::string head = name + " = ";
    while (i < t.size()) {
        size_t e = t.find('\n', i); bool found = t.compare(i, head.size(), head) == 0; size_t j = i;
        // skip the strings of this statement
        bool in = false; std::string s; bool first = true;
        for (; j < t.size(); ++j) { char ch = t[j]; if (!in) { if (ch == '"') { in = true; s = ""; } else if (ch == '\n') break; else if (ch == '#' && j == i) { while (j < t.size() && t[j] != '\n') ++j; break; } }
            else if (ch == '\\') { ++j; char x = j < t.size() ? t[j] : 0; if (x == 'n') s += '\n'; else if (x == 't') s += '\t'; else if (x == '"' || x == '\\' || x == '\'') s += x; else return false; }
            else if (ch == '"') { in = false; if (found && first) { ++n; ok = j + 1 >= t.size() || t[j + 1] == '\n'; v = s; first = false; } } else s += ch; }
        if (in) return false;
        i = j + 1; (void) e;
    }
    return ok;
}
static std::vector<std::string> words(const std::string& s, const std::string& open, const std::string& close) { std::vector<std::string> v; size_t i = 0; while ((i = s.find(open, i)) != std::string::npos) { size_t j = s.find(close, i + open.size()); if (j == std::string::npos) break; v.push_back(s.substr(i + open.size(), j - i - open.size())); i = j; } return v; }
static std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (!isspace((unsigned char) c)) o += c; return o; }
static std::string text(Rng& r) { static const char* w[] = {"the", "value: of", "a=b", "(1 2)", "\"quoted\"", "'single'", "\\n", "\\", "#", "100.5", "/", "x\\\"y"}; std::string s; for (int k = r.range(1, 4); k-- > 0;) s += std::string(s.empty() ? "" : " ") + w[r.below(12)]; return s; }
static void run(Ctx& c, Rng& r, long) {
    GenOpts g; g.heavy = 0.04; g.locks = r.coin() ? 0 : 0.3; g.maxIn = 4; g.maxBlocks = 2; g.maxRules = 5; g.maxTerms = 4; g.maxRes = 60; EngineSpec s = genEngine(r, g);
    if (r.chance(0.3)) { if (r.coin()) s.name = text(r); if (r.coin()) s.desc = text(r); for (auto& v : s.in) if (r.coin()) v.desc = text(r); for (auto& v : s.out) if (r.coin()) v.desc = text(r); for (auto& b : s.blocks) if (r.coin()) b.desc = text(r); }
    if (r.chance(0.05)) { // an engine whose surface cannot be exported
        bool noIn = r.coin(); std::unique_ptr<fl::Engine> e(new fl::Engine("e")); if (!noIn) e->addInputVariable(new fl::InputVariable("a", 0, 1)); else if (r.coin()) e->addOutputVariable(new fl::OutputVariable("o", 0, 1)); std::string p = scratchDir() + "/none.R"; remove(p.c_str()); bool t; std::string w; bool file = r.coin();
        w = caught([&]() { if (file) fl::RScriptExporter().toFile(p, e.get()); else fl::RScriptExporter().toString(e.get()); }, &t); c.count("unusable engines"); if (!t || w.size() < 10) c.violation("unusable", "an engine without inputs or outputs is exported: " + w); if (file && !readFile(p).empty()) c.violation("unusable", "a file is written for an engine without inputs or outputs"); remove(p.c_str()); return;
    }
    if (r.chance(0.02)) { std::unique_ptr<fl::Engine> e(buildApi(s)); bool t; std::string p = scratchDir() + "/missing/dir.R"; caught([&]() { fl::RScriptExporter().toFile(p, e.get()); }, &t); c.count("unwritable files"); if (!t) c.violation("file", "exporting to a file that cannot be created succeeds"); }
    std::unique_ptr<fl::Engine> a(buildApi(s)), b(buildApi(s)); size_t n = s.in.size(); c.note(specStr(s));
    for (size_t i = 0; i < n; ++i) { double x = genInput(r, s.in[i], false); a->getInputVariable(i)->setValue(x); b->getInputVariable(i)->setValue(x); }
    fl::RScriptExporter ex; std::string lo = "yellow", hi = "red", ct = "black"; if (r.chance(0.3)) { lo = "blue"; hi = "#ff0000"; ct = "white"; ex.setMinimumColor(lo); ex.setMaximumColor(hi); ex.setContourColor(ct); } if (ex.getMinimumColor() != lo || ex.getMaximumColor() != hi || ex.getContourColor() != ct) c.violation("options", "the colours do not read back"); if (r.chance(0.1)) { std::unique_ptr<fl::Exporter> k(((fl::Exporter&) ex).clone()); ex = *dynamic_cast<fl::RScriptExporter*>(k.get()); }
    size_t ia = 0, ib = 1 % n; int values = 1024; bool each = false; std::vector<size_t> outs; for (size_t i = 0; i < s.out.size(); ++i) outs.push_back(i);
    int how = r.below(8); bool file = r.chance(0.3), reader = false; if (how == 0 && r.chance(0.6)) how = 1; std::string table, path = scratchDir() + "/p.R", script, dfPath;
    if (how > 0) { ia = r.below((int) n); ib = r.below((int) n); each = r.coin(); values = each ? r.range(1, 12) : r.range(1, 200); if (r.coin()) { r.shuffle(outs); outs.resize(r.range(1, (int) outs.size())); } reader = how >= 4 && how <= 6; }
    if (reader) { std::ostringstream o; if (r.coin()) o << "in1 in2 out\n"; for (int k = r.range(0, 8); k-- > 0;) { if (r.chance(0.1)) { o << "# remark\n"; continue; } for (size_t i = 0; i < n; ++i) o << dec3(genInput(r, s.in[i], false)) << " "; o << "\n"; } table = o.str(); }
    if (how == 7 && r.coin()) how = 8;     // the script that reads its data from a file
    fl::InputVariable* A = a->getInputVariable(ia), * B = a->getInputVariable(ib); std::vector<fl::OutputVariable*> os; for (size_t i : outs) os.push_back(a->getOutputVariable(i)); fl::FldExporter::ScopeOfValues sc = each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables;
    std::string fll = fl::FllExporter().toString(a.get()); bool threw; std::istringstream is(table);
    std::string why = caught([&]() {
        if (how == 8) { std::ostringstream o; dfPath = "data.fld"; ex.writeScriptImportingDataFrame(a.get(), o, A, B, dfPath, os); script = o.str(); return; }
        if (how == 0) { if (file) ex.toFile(path, a.get()); else script = ex.toString(a.get()); }
        else if (reader) { if (file) ex.toFile(path, a.get(), A, B, is, os); else script = ex.toString(a.get(), A, B, is, os); }
        else { if (file) ex.toFile(path, a.get(), A, B, values, sc, os); else script = ex.toString(a.get(), A, B, values, sc, os); }
        if (file) script = readFile(path); }, &threw);
    // the data expected, from another engine
    std::string fld, whyB; bool tb = false; std::istringstream is2(table);
    if (how != 8) whyB = caught([&]() { std::ostringstream o; if (reader) fl::FldExporter().write(b.get(), o, is2); else { std::vector<fl::InputVariable*> av = b->inputVariables(); for (size_t i = 0; i < n; ++i) if (i != ia && i != ib) av[i] = nullptr; fl::FldExporter().write(b.get(), o, values, sc, av); } fld = o.str(); }, &tb);
    if (threw != tb) { c.violation("failure", "the script " + (threw ? "fails: " + why : std::string("is written")) + " but its data " + (tb ? "fails" : "is written"), specStr(s)); return; }
    if (threw) { c.count("failing exports"); return; }
    c.count("scripts"); c.distinct(script); if (c.wantSample()) c.sample(script.substr(0, 600)); if (reader) c.count("scripts with given data");
    auto bad = [&](const std::string& k, const std::string& m) { c.violation(k, m, script.substr(0, 12000)); }; std::string v; int cnt;
    if (!strOf(script, "engine.name", v, cnt) || v != s.name || cnt != 1) return bad("name", "the script does not carry the name of the engine but '" + v + "'");
    bool hasDesc = strOf(script, "engine.description", v, cnt); if (s.desc.empty() ? hasDesc : !hasDesc || v != s.desc) return bad("description", "the script does not carry the description of the engine");
    if (!strOf(script, "engine.fll", v, cnt) || v != fll || cnt != 1) return bad("fll", "the script does not carry the FLL of the engine: " + diffText(fll, v));
    if (how == 8) { if (!strOf(script, "engine.fldFile", v, cnt) || v != dfPath) return bad("data", "the script does not name its data file"); if (strOf(script, "engine.fld", v, cnt)) return bad("data", "the script carries data though it reads a file"); c.count("scripts reading a file"); }
    else { if (!strOf(script, "engine.fld", v, cnt) || v != fld || cnt != 1) return bad("data", "the script does not carry the data of the engine: " + diffText(fld, v)); long rows = std::count(fld.begin(), fld.end(), '\n') - 1; c.count("data rows", rows); }
    // the plots
    size_t pb = script.find("engine.df = "), pe = script.rfind("if (require(gridExtra))"); if (pb == std::string::npos || pe == std::string::npos || pe < pb) return bad("plots", "the script has no plots");
    std::string body = script.substr(pb, pe - pb), tail = script.substr(pe), sq = squeeze(body); std::vector<std::string> plots, fills, defs;
    { std::istringstream in(body); std::string l, cur; while (std::getline(in, l)) { if (l.compare(0, 12, "engine.plot.") == 0) { plots.push_back(l.substr(0, l.find(" = "))); defs.push_back(""); } if (!defs.empty()) defs.back() += squeeze(l); } }
    if (plots.size() != 2 * outs.size() || std::set<std::string>(plots.begin(), plots.end()).size() != plots.size()) return bad("plots", std::to_string(plots.size()) + " plots for " + std::to_string(outs.size()) + " outputs");
    std::string na = s.in[ia].name, nb = s.in[ib].name;
    for (size_t i = 0; i < outs.size(); ++i) {
        std::string z = s.out[outs[i]].name; std::string p = defs[2 * i], q = defs[2 * i + 1]; auto has = [&](const std::string& t, const std::string& w) { return t.find(w) != std::string::npos; }; bool ok;
        if (ia != ib) {
            ok = has(p, "ggplot(engine.df,aes(" + na + "," + nb + "))") && has(p, "fill=" + z + ")") && has(p, "stat_contour(aes(x=" + na + ",y=" + nb + ",z=" + z + ")") && has(p, "color=\"" + ct + "\"") && has(p, "low=\"" + lo + "\"") && has(p, "high=\"" + hi + "\"") && has(p, "ggtitle(\"(" + na + "," + nb + ")=" + z + "\")");
            ok = ok && has(q, "ggplot(engine.df,aes(" + nb + "," + na + "))") && has(q, "fill=" + z + ")") && has(q, "stat_contour(aes(x=" + nb + ",y=" + na + ",z=" + z + ")") && has(q, "color=\"" + ct + "\"") && has(q, "low=\"" + lo + "\"") && has(q, "high=\"" + hi + "\"") && has(q, "ggtitle(\"(" + nb + "," + na + ")=" + z + "\")"); c.count("surface plots", 2);
        } else {
            ok = has(p, "ggplot(engine.df,aes(" + na + "," + z + "))") && has(p, "color=" + z + ")") && has(p, "low=\"" + lo + "\"") && has(p, "high=\"" + hi + "\"") && has(p, "ggtitle(\"" + na + "vs" + z + "\")") && !has(p, "coord_flip");
            ok = ok && has(q, "ggplot(engine.df,aes(" + na + "," + z + "))") && has(q, "color=" + z + ")") && has(q, "low=\"" + lo + "\"") && has(q, "high=\"" + hi + "\"") && has(q, "ggtitle(\"" + z + "vs" + na + "\")") && has(q, "coord_flip"); c.count("line plots", 2);
        }
        if (!ok) return bad("plot", "the plots of output " + z + " are " + p + " and " + q);
    }
    std::string args = squeeze(tail); std::vector<std::string> l = words(args, "arrangeGrob(", "ncol="); std::string want; for (auto& p : plots) want += p + ","; if (l.size() != 1 || l[0] != want) return bad("arrangement", "the plots arranged are " + (l.empty() ? "none" : l[0]) + " instead of " + want);
    // brackets are balanced outside of strings
    { int d = 0; bool in = false, esc = false, com = false; for (char ch : script) { if (com) { if (ch == '\n') com = false; continue; } if (in) { if (esc) esc = false; else if (ch == '\\') esc = true; else if (ch == '"') in = false; continue; } if (ch == '"') in = true; else if (ch == '#') com = true; else if (ch == '(' || ch == '{') ++d; else if (ch == ')' || ch == '}') { if (--d < 0) break; } } if (d || in) bad("syntax", "brackets or quotes of the script are not balanced"); }
}
Property vf::PROPERTY("P25", 8000, 100000, run, "one engine (texts with quotes and backslashes included), selection of two inputs, outputs, values, scope or data, colours, by text or file: the script is read back (strings, data, plots, arrangement) and compared with the FLL and the dataset of another engine; distinct: scripts",
    {{"scripts", 4000}, {"data rows", 50000}, {"surface plots", 2000}, {"line plots", 1000}, {"scripts with given data", 800}, {"scripts reading a file", 200}, {"unusable engines", 100}});
