#include "probe.hpp"
#include "mutator.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
typedef std::vector<std::string> Args;
static std::string CLI;
static std::vector<std::string> EXAMPLE[3];
static const char* FMT[] = {"fll", "fis", "fcl", "cpp", "java", "fld"};
static void init(Ctx&) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string s(b, n > 0 ? n : 0); CLI = s.substr(0, s.rfind('/')) + "/fuzzylite-cli"; EXAMPLE[0] = examplesOf(".fll"); EXAMPLE[1] = examplesOf(".fis"); EXAMPLE[2] = examplesOf(".fcl"); }
struct Out { int status; int signal; std::string text; };
static std::string show(const Args& a) { std::string s; for (auto& x : a) s += " '" + x + "'"; return s; }
// the command line program itself, in a directory of its own, with limits
static Out cli(Ctx& c, const Args& a, const std::string& stdinText = "") {
    std::string d = scratchDir(), in = d + "/stdin", out = d + "/stdout"; writeFile(in, stdinText); std::vector<const char*> v; v.push_back(CLI.c_str()); for (auto& x : a) v.push_back(x.c_str()); v.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (chdir(d.c_str())) _exit(120); int fi = open(in.c_str(), O_RDONLY), fo = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fi, 0); dup2(fo, 1); dup2(fo, 2); setsid();
        rlimit l = {30, 30}; setrlimit(RLIMIT_CPU, &l); rlimit f = {200u << 20, 200u << 20}; setrlimit(RLIMIT_FSIZE, &f);
        setenv("ASAN_OPTIONS", (std::string(getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "") + ":handle_segv=2:handle_abort=2:handle_sigfpe=2:handle_sigbus=2:handle_sigill=2").c_str(), 1);
        execv(CLI.c_str(), (char**) v.data()); _exit(121);
    }
    int st = 0; waitpid(p, &st, 0); Out o; o.signal = WIFSIGNALED(st) ? WTERMSIG(st) : 0; o.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1; o.text = readFile(out); c.count("runs of the program");
    if (o.signal || o.status >= 97) c.violation(o.status == 121 ? "not-run" : "crash", "the program ended with " + (o.signal ? "signal " + std::to_string(o.signal) : "status " + std::to_string(o.status)) + ":" + show(a), o.text.substr(0, 4000));
    return o;
}
static void failed(Ctx& c, const Out& o, const Args& a, const std::string& why) { c.count("failures"); if (o.status == 0) c.violation("status", "status 0 after a failure (" + why.substr(0, 120) + "):" + show(a), o.text); if (o.text.size() < 5) c.violation("no-message", "a failure without a message:" + show(a)); }
static fl::Importer* importer(const std::string& f) { return f == "fll" ? (fl::Importer*) new fl::FllImporter : f == "fis" ? (fl::Importer*) new fl::FisImporter : new fl::FclImporter; }
static fl::Exporter* exporter(const std::string& f) { return f == "fll" ? (fl::Exporter*) new fl::FllExporter : f == "fis" ? (fl::Exporter*) new fl::FisExporter : f == "fcl" ? (fl::Exporter*) new fl::FclExporter : f == "cpp" ? (fl::Exporter*) new fl::CppExporter : new fl::JavaExporter; }
struct Job { std::string inFmt, text, example; int decimals; bool broken; Job() : decimals(-1), broken(false) {} };
static Job genJob(Rng& r, bool examples = true) {
    Job j; int k = r.below(3); j.inFmt = FMT[k]; if (r.chance(0.5)) j.decimals = r.range(0, 9);
    if (examples && r.chance(0.08)) { j.example = pickS(r, {"m", "mamdani", "t", "ts", "takagi-sugeno"}); j.inFmt = "fll"; return j; }
    if (r.chance(0.35) && !EXAMPLE[k].empty()) j.text = EXAMPLE[k][std::min((int) EXAMPLE[k].size() - 1, (int) (EXAMPLE[k].size() * r.unit() * r.unit()))];
    else { GenOpts g; g.heavy = 0.04; g.maxIn = 3; g.maxRules = 4; g.maxTerms = 3; g.maxRes = 40; if (k) { g.outAnte = 0; g.disabled = 0; } EngineSpec s = genEngine(r, g); bool t = true; for (int n = 0; n < 3 && t; ++n) { std::unique_ptr<fl::Engine> e(buildApi(s)); caught([&]() { std::unique_ptr<fl::Exporter> x(exporter(FMT[k])); j.text = x->toString(e.get()); }, &t); if (t) { k = 0; j.inFmt = "fll"; } } }
    if (r.chance(0.12)) { j.text = mutateText(r, j.text, k == 0 ? FLL_DICT : k == 1 ? FIS_DICT : FCL_DICT, j.text, r.range(1, 4)); j.broken = true; }
    return j;
}
static fl::Engine* engineOf(const Job& j) {
    if (!j.example.empty()) return j.example[0] == 'm' ? fl::Console().mamdani() : fl::Console().takagiSugeno();
    std::string t = j.text; if (!t.empty() && t[t.size() - 1] != '\n') t += "\n"; std::unique_ptr<fl::Importer> i(importer(j.inFmt)); return i->fromString(t);
}
static std::string name(Rng& r, const std::string& stem, const std::string& ext) { return stem + pickS(r, {"", "", " 2", ".v1", "-a", ".fis", "_b.fcl"}) + "." + ext; }
// the pairs of options in any order
static Args flatten(Rng& r, std::vector<std::pair<std::string, std::string> > o) { r.shuffle(o); Args a; for (auto& p : o) { a.push_back(p.first); a.push_back(p.second); } return a; }
static void convert(Ctx& c, Rng& r) {
    Job j = genJob(r); std::string of = FMT[r.below(6)], dir = scratchDir(); std::vector<std::pair<std::string, std::string> > o; bool shortForm = j.example.empty() && of != "fld" && r.chance(0.12);
    bool fmtIn = !shortForm && r.chance(0.4), fmtOut = !shortForm && r.chance(0.4), toFile = shortForm || !fmtOut || r.chance(0.75); if (shortForm) j.decimals = -1;
    std::string in = fmtIn && r.coin() ? pickS(r, {"engine", "engine.txt", "a.fll", "b.fcl"}) : name(r, "in", j.inFmt), out = fmtOut && r.coin() ? pickS(r, {"result", "result.txt", "o.fis"}) : name(r, "out", of); if (r.chance(0.3)) in = dir + "/" + in; if (r.chance(0.3)) out = dir + "/" + out;
    auto full = [&](const std::string& f) { return f[0] == '/' ? f : dir + "/" + f; };
    if (j.example.empty()) { writeFile(full(in), j.text); o.push_back({"-i", in}); } else { o.push_back({"-example", j.example}); if (r.coin()) o.push_back({"-i", "ignored.fll"}); }
    if (fmtIn && j.example.empty()) o.push_back({"-if", j.inFmt}); if (toFile) o.push_back({"-o", out}); if (fmtOut) o.push_back({"-of", of}); if (j.decimals >= 0) o.push_back({"-decimals", std::to_string(j.decimals)});
    long values = 0; bool each = true, data = false, scope = false, hd = true, inp = true; std::string fld;
    if (of == "fld") {
        if (r.coin()) { o.push_back({"-dheader", pickS(r, {"true", "false"})}); hd = o.back().second == "true"; } if (r.coin()) { o.push_back({"-dinputs", pickS(r, {"true", "false"})}); inp = o.back().second == "true"; }
        data = r.chance(0.4); if (!data || r.chance(0.2)) { values = r.range(1, r.coin() ? 5 : 30); o.push_back({"-values", std::to_string(values)}); scope = r.coin(); if (scope) { each = r.coin(); o.push_back({"-scope", each ? "EachVariable" : "AllVariables"}); } }
    }
    fl::fuzzylite::setDecimals(j.decimals >= 0 ? j.decimals : 3); std::string want; bool th; std::unique_ptr<fl::Engine> e; std::string w = caught([&]() { e.reset(engineOf(j)); }, &th);
    if (e && of == "fld" && !data) { long n = (long) e->numberOfInputVariables(); while (each && values > 1 && std::pow((double) values, (double) n) > 3000) --values; for (auto& p : o) if (p.first == "-values") p.second = std::to_string(values); }
    if (data) { size_t n = e ? e->numberOfInputVariables() : 2; int rows = r.below(12); bool bad = r.chance(0.08); if (r.coin()) { for (size_t i = 0; i < n; ++i) fld += (i ? " " : "") + (e ? e->getInputVariable(i)->getName() : std::string("a")); fld += "\n"; } for (int k = 0; k < rows; ++k) { if (r.chance(0.1)) fld += r.coin() ? "\n" : "# comment\n"; for (size_t i = 0; i < n + (bad ? r.range(-1, 1) : 0); ++i) fld += (i ? " " : "") + (bad && r.chance(0.1) ? std::string("x") : r.chance(0.1) ? std::string("nan") : num(r.dec(-2, 2))); if (k + 1 < rows || r.coin()) fld += "\n"; } writeFile(dir + "/data.fld", fld); o.push_back({"-d", r.coin() ? "data.fld" : dir + "/data.fld"}); }
    if (e && !th) w = caught([&]() {
        if (of != "fld") { std::unique_ptr<fl::Exporter> x(exporter(of)); want = x->toString(e.get()); return; }
        fl::FldExporter x(" "); x.setExportHeader(hd); x.setExportInputValues(inp); x.setExportOutputValues(true); std::ostringstream s; if (data) { std::istringstream i(fld); x.write(e.get(), s, i); } else x.write(e.get(), s, (int) values, each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables); want = s.str(); }, &th);
    fl::fuzzylite::setDecimals(3);
    unlink(full(out).c_str()); Args a = shortForm ? Args{in, out} : flatten(r, o); c.note(show(a) + "\n" + j.text + "\n" + fld); c.distinct(show(a) + j.text + fld); Out x = cli(c, a);
    if (th) { failed(c, x, a, w); return; }
    c.count(std::string("converted ") + (j.example.empty() ? j.inFmt : "example") + " to " + of); c.count(toFile ? "written to files" : "written to the console"); if (of == "fld") c.count(data ? "data from files" : each ? "values for each variable" : "values for all variables"); if (j.decimals >= 0) c.count("with decimals");
    if (x.status != 0) { c.violation("failed", "the program fails:" + show(a), x.text + "\n" + j.text); return; }
    std::string got = toFile ? readFile(full(out)) : x.text;
    if (toFile ? got != want : got.find(want) == std::string::npos) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; c.violation("content", "the program writes '" + got.substr(k > 20 ? k - 20 : 0, 80) + "' instead of '" + want.substr(k > 20 ? k - 20 : 0, 80) + "':" + show(a), "wanted\n" + want + "\ngot\n" + got); }
    if (toFile && x.text.find("BACKTRACE") != std::string::npos) c.violation("message", "an error message without a failure:" + show(a), x.text);
    if (c.wantSample()) c.sample(show(a));
}
static void wrong(Ctx& c, Rng& r) {
    Job j; do j = genJob(r, false); while (j.broken); std::string dir = scratchDir(); writeFile(dir + "/in." + j.inFmt, j.text); std::vector<std::pair<std::string, std::string> > o = {{"-i", "in." + j.inFmt}, {"-o", "out.fll"}}; Args a; std::string why; int kind = r.below(15);
    auto set = [&](const std::string& k, const std::string& v) { for (auto& p : o) if (p.first == k) { p.second = v; return; } o.push_back({k, v}); };
    switch (kind) {
        case 0: why = "an unknown option"; o.push_back({pickS(r, {"-x", "-input", "-I", "--decimals", "-decimal", "-O", "-value", "-dmaximum", "decimals", "-", "-i ", "-inputfile"}), "3"}); break;
        case 1: why = "an option without value"; a = flatten(r, o); a.push_back(pickS(r, {"-decimals", "-of", "-values", "x"})); break;
        case 2: why = "an unknown input format"; set("-if", pickS(r, {"FLL", "xml", "fld", "cpp", "", "fl", "fll ", "java"})); break;
        case 3: why = "an unknown output format"; set("-of", pickS(r, {"FLL", "xml", "R", "c", "", "fll ", "fil"})); break;
        case 4: why = "a missing input file"; set("-i", pickS(r, {"missing.fll", "no/such/dir.fll", "in", "", "in.flll"})); break;
        case 5: why = "an output that cannot be created"; set("-o", "no/such/directory/out.fll"); break;
        case 6: why = "an unknown scope"; set("-o", "out.fld"); set("-values", "3"); set("-scope", pickS(r, {"eachvariable", "All", "", "AllVariable", "Each"})); break;
        case 7: why = "a missing data file"; set("-o", "out.fld"); set("-d", "missing.fld"); break;
        case 8: why = "decimals that are not a number"; set("-decimals", pickS(r, {"three", "", "3x", "nan", "99999999999"})); break;
        case 9: why = "values that are not a number"; set("-o", "out.fld"); set("-values", pickS(r, {"many", "", "1o", "nan", "99999999999"})); break;
        case 10: why = "no input"; o.erase(o.begin()); if (r.coin()) o.push_back({"-decimals", "3"}); break;
        case 11: why = "no output format"; if (r.coin()) set("-o", "out"); else { o.erase(o.begin() + 1); if (r.coin()) o.push_back({"-decimals", "3"}); } break;
        case 12: why = "an unknown example"; o.push_back({"-example", pickS(r, {"x", "Mamdani", "", "mm", "hybrid"})}); break;
        case 13: why = "no input format"; writeFile(dir + "/plain", j.text); set("-i", "plain"); break;
        default: why = "data that are not numbers"; set("-o", "out.fld"); writeFile(dir + "/data.fld", "1 2 3 4 5 6 7 8 9 1 2 3 4 5 6 7 8\nx y\n"); set("-d", "data.fld");
    }
    if (a.empty()) a = flatten(r, o); c.note(why + show(a)); c.distinct(show(a)); c.count("mistake: " + why); Out x = cli(c, a); failed(c, x, a, why);
}
// without values or data, the program asks for them: every completed line shows the outputs the engine computes
static void interactive(Ctx& c, Rng& r) {
    Job j; std::unique_ptr<fl::Engine> e; do { j = genJob(r, false); e.reset(); bool th = j.broken; if (!th) { fl::fuzzylite::setDecimals(3); caught([&]() { e.reset(engineOf(j)); }, &th); } } while (!e || !e->numberOfInputVariables());
    std::string dir = scratchDir(), text; writeFile(dir + "/in." + j.inFmt, j.text); std::vector<std::pair<std::string, std::string> > o = {{"-i", "in." + j.inFmt}}; bool toFile = r.coin(); if (toFile) o.push_back({"-o", "out.fld"}); else o.push_back({"-of", "fld"}); if (j.decimals >= 0) o.push_back({"-decimals", std::to_string(j.decimals)});
    fl::fuzzylite::setDecimals(j.decimals >= 0 ? j.decimals : 3); std::vector<std::string> want; std::vector<double> in; size_t n = e->numberOfInputVariables(); bool mid = false;
    auto process = [&]() { std::string s; for (size_t i = 0; i < in.size(); ++i) e->getInputVariable(i)->setValue(in[i]); in.clear(); bool th; std::string w = caught([&]() { e->process(); for (auto v : e->outputVariables()) s += (s.empty() ? "" : "\t") + fl::Op::str(v->getValue()); }, &th); want.push_back(th ? "#" : s); };
    for (int k = r.range(1, 25); k-- > 0;) {
        int z = r.below(20);
        if (z < 14) { double x = r.dec(-2, 2); std::string t = fl::Op::str(x, 3); text += t + pickS(r, {" ", "\n", "\t"}); in.push_back(fl::Op::toScalar(t)); }
        else if (z == 14) { text += " "; in.push_back(e->getInputVariable(in.size())->getValue()); }              // stays as it is
        else if (z == 15) { text += pickS(r, {"abc ", "1.2.3\n", "x\t", "--1 "}); in.push_back(e->getInputVariable(in.size())->getValue()); }
        else if (z == 16) { text += pickS(r, {"d", "D", "0.5d"}); in.clear(); c.count("interactive: discarded"); }
        else if (z == 17) { text += pickS(r, {"p", "P"}); process(); c.count("interactive: processed early"); }
        else if (z == 18) { text += pickS(r, {"r", "R"}); e->restart(); in.clear(); c.count("interactive: restarted"); }
        else { text += pickS(r, {"h", "H"}); }
        if (in.size() == n) process();
    }
    if (r.coin()) { text += pickS(r, {"q", "Q"}); if (r.coin()) text += " 1 2 3 4 5 6 7 8 "; } (void) mid; fl::fuzzylite::setDecimals(3);
    unlink((dir + "/out.fld").c_str()); Args a = flatten(r, o); c.note(show(a) + "\n" + text + "\n" + j.text); c.distinct(show(a) + text + j.text); Out x = cli(c, a, text); if (x.signal || x.status >= 97) return;
    if (x.status != 0) { c.violation("interactive:failed", "the interactive console fails:" + show(a), text + "\n=>\n" + x.text); return; }
    std::string got = toFile ? readFile(dir + "/out.fld") : x.text; if (toFile && x.text.find(got.substr(0, got.size() - 1)) == std::string::npos) c.violation("interactive:console", "the console does not show what is written to the file", x.text + "\n---\n" + got);
    std::vector<std::string> rows; for (size_t p = 0; (p = got.find("=\t", p)) != std::string::npos;) { p += 2; size_t q = got.find_first_of("\n", p); std::string l = got.substr(p, q - p); rows.push_back(l.substr(0, 2) == "#[" ? "#" : l); }
    c.count("interactive lines", (long) want.size());
    for (size_t i = 0; i < std::max(rows.size(), want.size()); ++i) { std::string g = i < rows.size() ? rows[i] : "(nothing)", w = i < want.size() ? want[i] : "(nothing)"; if (g != w) { c.violation("interactive", "line " + std::to_string(i) + " shows '" + g + "' instead of '" + w + "'", text + "\n=>\n" + got + "\n" + j.text); break; } }
}
static std::vector<std::string> cols(const std::string& l, char sep) { std::vector<std::string> v; std::istringstream i(l); std::string s; while (std::getline(i, s, sep)) v.push_back(s); if (!l.empty() && l[l.size() - 1] == sep) v.push_back(""); return v; }
static void benchmark(Ctx& c, Rng& r) {
    std::string dir = scratchDir(); int n = r.range(1, 3); bool many = r.coin(), toFile = r.coin(), fail = false; if (!many) n = 1; int runs = r.range(1, 3); std::string flls, flds; std::vector<std::string> names; std::vector<std::vector<std::string> > want; std::string inTexts; int missing = r.chance(0.1) ? r.below(n) : -1;
    for (int i = 0; i < n; ++i) {
        GenOpts g; g.maxIn = 2; g.maxRules = 3; g.maxTerms = 3; g.maxRes = 30; EngineSpec s = genEngine(r, g); std::unique_ptr<fl::Engine> e(buildApi(s)); std::string t = fl::FllExporter().toString(e.get()), d; inTexts += t; bool th; std::string w = caught([&]() { e.reset(fl::FllImporter().fromString(t)); d = fl::FldExporter(" ").toString(e.get(), r.range(1, 20), fl::FldExporter::AllVariables); }, &th); if (th) d = "1 2 3 4 5 6 7 8\n"; 
        // some of the recorded outputs are off
        { std::string z; std::istringstream in(d); std::string l; int k = 0; while (std::getline(in, l)) { if (k++ && r.chance(0.2)) { size_t p = l.rfind(' '); l = l.substr(0, p + 1) + pickS(r, {"0.123", "nan", "77.5"}); } z += l + "\n"; } d = z; }
        std::string f = "e" + std::to_string(i); writeFile(dir + "/" + f + ".fll", t); if (i != missing) writeFile(dir + "/" + f + ".fld", d); else unlink((dir + "/" + f + ".fld").c_str()); if (r.chance(0.2)) { flls += "# comment\n"; flds += "# comment\n"; } flls += r.coin() ? "  " + f + ".fll\n" : f + ".fll\n"; flds += f + ".fld\n";
        std::vector<std::string> row; w = caught([&]() { std::unique_ptr<fl::Engine> k(fl::FllImporter().fromString(t)); fl::Benchmark b(k->getName(), k.get()); std::istringstream in(d); b.prepare(in); b.run(runs); for (auto& p : b.results()) row.push_back(p.first + "=" + p.second); }, &th); fail = fail || th || i == missing; want.push_back(row);
    }
    writeFile(dir + "/flls.txt", flls); writeFile(dir + "/flds.txt", flds); Args a = many ? Args{"benchmarks", "flls.txt", "flds.txt", std::to_string(runs)} : Args{"benchmark", "e0.fll", "e0.fld", std::to_string(runs)}; if (toFile) a.push_back("out.tsv");
    if (r.chance(0.08)) { fail = true; int k = r.below(4); if (k == 0) a.resize(r.range(3, 3)), a.resize(3); else if (k == 1) a[3] = "x"; else if (k == 2) a[1] = "missing"; else { a.resize(4); a.push_back("no/such/dir/x.tsv"); } if (k == 0) toFile = false; }
    c.note(show(a) + "\n" + inTexts); c.distinct(show(a) + inTexts); Out x = cli(c, a); if (x.signal || x.status >= 97) return; if (fail) { failed(c, x, a, "benchmark"); return; }
    if (x.status) { c.violation("benchmark:failed", "the program fails:" + show(a), x.text); return; } c.count("benchmarks", n);
    std::string got = toFile ? readFile(dir + "/out.tsv") : x.text; std::vector<std::string> head; size_t k = 0; std::istringstream in(got); std::string l; 
    while (std::getline(in, l)) { std::vector<std::string> f = cols(l, '\t'); if (head.empty()) { if (f.size() > 5) head = f; continue; } if (f.size() < 5) continue; if (k >= want.size()) { ++k; break; } if (f.size() != head.size() || f.size() != want[k].size()) { c.violation("benchmark:columns", std::to_string(f.size()) + " columns under " + std::to_string(head.size()) + " headings, " + std::to_string(want[k].size()) + " expected", got); return; }
        for (size_t i = 0; i < f.size(); ++i) { size_t q = want[k][i].find('='); std::string key = want[k][i].substr(0, q), val = want[k][i].substr(q + 1); bool timed = key.find("(t)") != std::string::npos || key.find("t=") == 0 || (key[0] == 't' && key.size() < 4) || key == "t" || key == "stdev" || key == "mean(t)" || key == "sum(t)" || key == "sd(t)"; for (size_t z = 0; z + 1 < key.size(); ++z) timed = timed || (key[z] == 't' && isdigit((unsigned char) key[z + 1])); if (head[i] != key) { c.violation("benchmark:heading", "heading '" + head[i] + "' instead of '" + key + "'", got); return; } if (!timed && f[i] != val) { c.violation("benchmark:value", key + " is '" + f[i] + "' instead of '" + val + "'", got); return; } } ++k; }
    if (k != want.size()) c.violation("benchmark:rows", std::to_string(k) + " rows instead of " + std::to_string(want.size()), got);
}
// the shipped examples, exported all at once
static void examples(Ctx& c, Rng&) {
    std::string dir = scratchDir(), repo = getenv("VF_REPO") ? getenv("VF_REPO") : "/repo"; for (auto d : {"/ex", "/ex/mamdani", "/ex/mamdani/matlab", "/ex/mamdani/octave", "/ex/takagi-sugeno", "/ex/takagi-sugeno/matlab", "/ex/takagi-sugeno/octave", "/ex/tsukamoto", "/ex/hybrid"}) mkdir((dir + d).c_str(), 0755);
    Args a = {"export-examples", repo + "/examples/missing", dir + "/ex"}; Out x = cli(c, a); failed(c, x, a, "missing examples"); c.count("usage"); a.clear(); x = cli(c, a); if (x.status || x.text.find("-decimals") == std::string::npos) c.violation("usage", "without options the program does not say how it is used", x.text); a = {"in.fll"}; x = cli(c, a); if (x.text.find("-decimals") == std::string::npos) c.violation("usage", "with one option the program does not say how it is used", x.text);
}
static void run(Ctx& c, Rng& r, long idx) { if (idx % 400 == 7) { examples(c, r); return; } int k = idx % 10; if (k < 5) convert(c, r); else if (k < 7) wrong(c, r); else if (k < 9) interactive(c, r); else benchmark(c, r); }
Property vf::PROPERTY("P35", 4000, 200000, run, "The command line program itself, built with address and undefined-behaviour monitors, on random and shipped engines in every pair of formats with options in any order, mistakes in every option, interactive sessions and benchmarks; files, console and status are compared with what the importers, exporters, engines and benchmarks give in process.",
    {{"runs of the program", 3500}, {"failures", 500}, {"written to files", 800}, {"written to the console", 100}, {"data from files", 50}, {"values for each variable", 50}, {"values for all variables", 20}, {"with decimals", 300}, {"interactive lines", 1500}, {"interactive: restarted", 200}, {"interactive: discarded", 200}, {"benchmarks", 300}, {"converted example to fld", 5}}, true, 60, init);
