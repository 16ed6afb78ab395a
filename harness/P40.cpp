#include "spec.hpp"
using namespace vf;
typedef std::vector<std::string> Lines;
static Lines lines(const std::string& s) { Lines l; std::string x; std::istringstream i(s); while (std::getline(i, x)) l.push_back(x); return l; }
static std::string text(const Lines& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static std::string strip(const std::string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::string first(const std::string& s) { std::istringstream i(s); std::string w; i >> w; return w; }
static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static std::string notNumber(Rng& r) { return pickS(r, {"abc", "1.2.3", "--1", "one", "1.5a", "?", "+-2", "nanx", "in"}); }
static std::string notBool(Rng& r, bool upper) { return pickS(r, {upper ? "true" : "TRUE", upper ? "False" : "False", "1", "0", "yes", "no", "tru", "on"}); }
static std::string notClass(Rng& r) { return pickS(r, {"Foo", "triangle", "minimum", "Maximun", "Centroidal", "Gauss", "NORM", "Generals", "x"}); }
static std::string notNorm(Rng& r, bool t) { return r.coin() ? notClass(r) : t ? std::string(SNORMS[r.below(9)]) : std::string(TNORMS[r.below(7)]); }
// a term's description with the class or parameters spoilt; words: name, class, parameters
static bool badTerm(Rng& r, std::string& nm, std::string& cls, std::string& params, std::string& kind) {
    (void) nm;
    if (r.coin()) { cls = notClass(r); kind = "class of term"; return true; }
    if (cls == "Function") { params += pickS(r, {" +", " )", " ( ", " * * 2", " undefinedVariable"}); kind = "formula of term"; return true; }
    std::istringstream i(params); Lines p; std::string w; while (i >> w) p.push_back(w); if (p.empty()) return false;
    if (cls == "Discrete" || cls == "Linear" || cls == "Constant" || r.coin()) { p[r.below((int) p.size())] = notNumber(r); kind = "parameter of term"; }
    else { p.resize(1); if (cls == "Binary" || cls == "Concave" || cls == "Ramp" || cls == "Sigmoid" || cls == "SShape" || cls == "ZShape" || cls == "Rectangle" || cls == "Gaussian" || cls == "Cosine" || cls == "Spike" || cls == "Triangle" || cls == "Trapezoid" || cls == "Bell" || cls == "PiShape" || cls == "GaussianProduct" || cls == "SigmoidProduct" || cls == "SigmoidDifference") kind = "missing parameters of term"; else return false; }
    params.clear(); for (auto& x : p) params += (params.empty() ? "" : " ") + x;
    return true;
}
// ---- FLL
static bool faultFll(Rng& r, Lines& L, std::string& kind) {
    int i = r.below((int) L.size()); std::string l = strip(L[i]); if (l.empty() || l[0] == '#') return false;
    size_t c = l.find(':'); if (c == std::string::npos) return false; std::string k = strip(l.substr(0, c)), v = strip(l.substr(c + 1)), block = "";
    for (int j = i; j >= 0 && block.empty(); --j) { std::string w = strip(L[j]); for (auto b : {"InputVariable", "OutputVariable", "RuleBlock"}) if (starts(w, std::string(b) + ":")) block = b; }
    auto set = [&](const std::string& val) { L[i] = "  " + k + ": " + val; return true; };
    int m = r.below(10);
    if (m == 0) { kind = "unknown key"; k = pickS(r, {"rang", "Term", "enable", "lock", "default value", "x", "RULE", "Input Variable", "engine", "terms"}); return set(v); }
    if (m == 1 && v.find(':') == std::string::npos && (block.size() || i == 0)) { kind = "no colon"; L[i] = k + " " + v; return true; }
    if (m == 2 && block.size() && k != block && k != "description" && k != "enabled") {
        kind = "key of another block";
        if (block == "InputVariable") k = pickS(r, {"rule", "conjunction", "disjunction", "implication", "activation", "default", "aggregation", "defuzzifier", "lock-previous"});
        else if (block == "OutputVariable") k = pickS(r, {"rule", "conjunction", "disjunction", "implication", "activation"});
        else k = pickS(r, {"range", "term", "lock-range", "lock-previous", "default", "aggregation", "defuzzifier"});
        return set(v);
    }
    if (m == 3 && block.empty()) { kind = "property outside a block"; L.insert(L.begin() + i, pickS(r, {"enabled: true", "range: 0 1", "rule: if a is b then c is d"})); return true; }
    if (k == "enabled" || k == "lock-range" || k == "lock-previous") { kind = "boolean"; return set(r.chance(0.1) ? "" : notBool(r, false)); }
    if (k == "range") { kind = "range"; switch (r.below(4)) { case 0: return set("1"); case 1: return set("0 " + notNumber(r)); case 2: return set(notNumber(r) + " 1"); default: return set("0 1 2"); } }
    if (k == "default") { kind = "default"; return set(r.chance(0.1) ? "" : notNumber(r)); }
    if (k == "aggregation") { kind = "aggregation"; return set(notNorm(r, false)); }
    if (k == "conjunction" || k == "implication") { kind = k; return set(notNorm(r, true)); }
    if (k == "disjunction") { kind = k; return set(notNorm(r, false)); }
    if (k == "activation") { kind = k; return set(r.coin() ? notClass(r) : pickS(r, {"First x 0.5", "Threshold ?? 0.5", "Highest many", "Threshold >= abc", "Lowest 1.x"})); }
    if (k == "defuzzifier") { kind = k; return set(r.coin() ? notClass(r) : pickS(r, {"Centroid many", "WeightedAverage Foo", "WeightedSum takagisugeno", "Bisector x"})); }
    if (k == "term") {
        std::istringstream w(v); std::string nm, cls, rest; w >> nm >> cls; std::getline(w, rest); rest = strip(rest);
        if (r.chance(0.15)) { kind = "term without class"; return set(nm); }
        if (!badTerm(r, nm, cls, rest, kind)) return false; return set(nm + " " + cls + (rest.empty() ? "" : " " + rest));
    }
    return false;
}
// ---- FCL
static bool faultFcl(Rng& r, Lines& L, std::string& kind) {
    int i = r.below((int) L.size()); std::string l = strip(L[i]); if (l.empty() || starts(l, "//")) return false;
    std::string k = first(l), block, blockOf; for (int j = i - 1; j >= 0; --j) { std::string w = first(L[j]); if (w == "VAR_INPUT" || w == "VAR_OUTPUT" || w == "FUZZIFY" || w == "DEFUZZIFY" || w == "RULEBLOCK") { block = w; break; } if (starts(w, "END_")) break; }
    auto set = [&](const std::string& s) { L[i] = "  " + s; return true; };
    auto val = [&](const std::string& s) { return set(k + " : " + s + ";"); };
    if (starts(k, "FUNCTION_BLOCK") || starts(k, "END_FUNCTION")) return false;
    if (starts(k, "END_")) { if (r.coin()) { kind = "block without end"; L.erase(L.begin() + i); return true; } kind = "wrong end"; if (block.empty()) return false; return set(k == "END_VAR" ? "END_FUZZIFY" : "END_VAR"); }
    if (block.empty()) {
        if (r.coin()) { kind = "unknown block"; return set(pickS(r, {"VAR_INOUT", "FUZIFY x", "RULES", "VAR", "DEFUZZIFY_ x", "enabled"})); }
        if (k == "FUZZIFY" || k == "DEFUZZIFY") { kind = "block of an unknown variable"; return set(r.coin() ? k + " undeclared" : k); }
        return false;
    }
    if (r.chance(0.2)) { kind = "unknown keyword"; if (block[0] == 'V') return set(l.substr(0, l.find(':')) + pickS(r, {" REAL;", ": REAL : REAL;"})); return set(pickS(r, {"RANG := (0 .. 1)", "term x := Triangle 0 1 2", "METHODS : COG", "ACTIVATE : MIN", "LOCKS : RANGE", "ENABLE : TRUE", "XOR : MIN"})); }
    if (r.chance(0.1) && block[0] != 'V') { kind = "keyword of another block"; if (block == "FUZZIFY") return set(pickS(r, {"METHOD : COG", "ACCU : MAX", "DEFAULT := 1", "RULE 1 : if a is b then c is d", "AND : MIN"})); if (block == "DEFUZZIFY") return set(pickS(r, {"AND : MIN", "ACT : MIN", "RULE 1 : if a is b then c is d"})); return set(pickS(r, {"TERM a := Triangle 0 1 2", "METHOD : COG", "RANGE := (0 .. 1)"})); }
    if (k == "RANGE") { kind = "range"; switch (r.below(5)) { case 0: return set("RANGE : (0 .. 1);"); case 1: return set("RANGE := (0 . 1);"); case 2: return set("RANGE := (0 .. " + notNumber(r) + ");"); case 3: return set("RANGE := (" + notNumber(r) + " .. 1);"); default: return set("RANGE := (0 .. 1 .. 2);"); } }
    if (k == "ENABLED") { kind = "boolean"; return r.chance(0.2) ? set("ENABLED TRUE;") : val(notBool(r, true)); }
    if (k == "LOCK") { kind = "locks"; return r.chance(0.15) ? set("LOCK RANGE;") : val(pickS(r, {"range", "PREVIOUS | RANG", "FOO | RANGE", "PREVIOUS | RANGE | RANGE", "PREVIOUS RANGE", "NONE", "PREVIOUS | PREVIOUS"})); }
    if (k == "METHOD") { kind = "defuzzifier"; return r.chance(0.15) ? set("METHOD COG;") : val(r.coin() ? notClass(r) : pickS(r, {"cog", "CENTROID", "COGSSS", "MIN"})); }
    if (k == "ACCU" || k == "OR") { kind = "S-norm"; return r.chance(0.15) ? set(k + " MAX;") : val(r.coin() ? notNorm(r, false) : pickS(r, {"MIN", "max", "PROD", "XSUM"})); }
    if (k == "AND" || k == "ACT") { kind = "T-norm"; return r.chance(0.15) ? set(k + " MIN;") : val(r.coin() ? notNorm(r, true) : pickS(r, {"MAX", "min", "ASUM", "XPROD"})); }
    if (k == "DEFAULT") { kind = "default"; switch (r.below(4)) { case 0: return set("DEFAULT : 1;"); case 1: return set("DEFAULT := " + notNumber(r) + ";"); case 2: return set("DEFAULT := 0.5 | PREVIOUS;"); default: return set("DEFAULT := 0.5 | nc;"); } }
    if (k == "TERM") {
        size_t a = l.find(":="); if (a == std::string::npos) return false; std::string head = strip(l.substr(0, a)), body = strip(l.substr(a + 2)); if (body.size() && body.back() == ';') body = strip(body.substr(0, body.size() - 1));
        if (r.chance(0.2)) { kind = "term without definition"; return set(r.coin() ? head + ";" : head + " :=;"); }
        if (body[0] == '(') { kind = "points of term"; return set(head + " := (0.0, abc) (1.0, 1.0);"); }
        std::string cls = first(body), rest = strip(body.substr(cls.size())), nm; char* e; strtod(cls.c_str(), &e); if (!*e) { kind = "class of term"; return set(head + " := " + notNumber(r) + ";"); }
        if (!badTerm(r, nm, cls, rest, kind)) return false; return set(head + " := " + cls + " " + rest + ";");
    }
    return false;
}
// ---- FIS
static bool faultFis(Rng& r, Lines& L, std::string& kind, int ni, int no, const std::vector<int>& terms) {
    int i = r.below((int) L.size()); if (r.chance(0.15)) i = (int) L.size() - 1; std::string l = strip(L[i]); if (l.empty() || l[0] == '#') return false;
    std::string section; for (int j = i; j >= 0; --j) { std::string w = strip(L[j]); if (w.size() && w[0] == '[' && w[1] >= 'A') { section = w; break; } }
    auto set = [&](const std::string& s) { L[i] = s; return true; };
    if (l == "[System]") { if (r.chance(0.5)) { kind = "no section"; L.insert(L.begin() + i, "Name='x'"); return true; } kind = "no section"; return set("[system]"); }
    if (l[0] == '[') { kind = "unknown section"; return set(pickS(r, {"[Inpt1]", "[input1]", "[Rule]", "[Foo]"}) + "x"); }
    size_t q = l.find('='); std::string k = q == std::string::npos ? "" : strip(l.substr(0, q)), v = q == std::string::npos ? "" : strip(l.substr(q + 1));
    if (section == "[Rules]") {
        int m = r.below(9); size_t comma = l.find(','), par = l.find('('), colon = l.find(':'); if (comma == std::string::npos || par == std::string::npos || colon == std::string::npos) return false;
        std::string a = strip(l.substr(0, comma)), b = strip(l.substr(comma + 1, par - comma - 1)), w = l.substr(par, colon - par), conn = strip(l.substr(colon + 1));
        auto make = [&](const std::string& x, const std::string& y, const std::string& z, const std::string& co) { return set(x + ", " + y + " " + z + ": " + co); };
        Lines ins; { std::istringstream t(a); std::string s; while (t >> s) ins.push_back(s); }
        auto joined = [&](const Lines& p) { std::string s; for (auto& x : p) s += (s.empty() ? "" : " ") + x; return s; };
        int active = 0; for (auto& x : ins) active += x != "0" && x != "0.000";
        switch (m) {
            case 0: kind = "rule without comma"; return set(a + " " + b + " " + w + ": " + conn);
            case 1: kind = "rule without colon"; return set(a + ", " + b + " " + w + conn);
            case 2: kind = "rule with an input too many"; return make(a + " 1", b, w, conn);
            case 3: kind = "rule with an output too many"; return make(a, b + " 1", w, conn);
            case 4: kind = "rule with a code that is no number"; ins[r.below((int) ins.size())] = notNumber(r); return make(joined(ins), b, w, conn);
            case 5: { kind = "rule with a code out of range"; int z = r.below(ni); ins[z] = std::to_string(terms[z] + r.range(1, 3)); if (r.coin()) ins[z] = "-" + ins[z]; return make(joined(ins), b, w, conn); }
            case 6: { int z = r.below(ni); if (!terms[z]) return false; kind = "rule with an unknown hedge"; ins[z] = "1." + pickS(r, {"1", "17", "6", "25", "5", "98"}); return make(joined(ins), b, w, conn); }
            case 7: if (active < 2) return false; kind = "rule with an unknown connector"; return make(a, b, w, pickS(r, {"3", "0", "and", "12", "-1"}));
            default: kind = "rule with a weight that is no number"; return make(a, b, "(" + notNumber(r) + ") ", conn);
        }
    }
    if (section == "[System]") {
        if (r.chance(0.3)) { kind = "unknown key"; return set(pickS(r, {"Nme", "name", "AndMeth", "NumTerms", "Enabled", "Range"}) + "=" + v); }
        if (k == "AndMethod" || k == "ImpMethod") { kind = "T-norm"; return set(k + "='" + pickS(r, {"max", "MIN", "foo", "probor", "minimum", "Maximum"}) + "'"); }
        if (k == "OrMethod" || k == "AggMethod") { kind = "S-norm"; return set(k + "='" + pickS(r, {"min", "MAX", "foo", "prod", "maximum", "Minimum"}) + "'"); }
        if (k == "DefuzzMethod") { kind = "defuzzifier"; return set(k + "='" + pickS(r, {"cog", "CENTROID", "foo", "weighted", "max"}) + "'"); }
        return false;
    }
    if (k.empty() || section.empty()) return false;
    if (r.chance(0.15)) { kind = "unknown key"; return set(pickS(r, {"Nme", "name", "range", "Term1", "Lock", "AndMethod", "Type"}) + "=" + v); }
    if (r.chance(0.1)) { kind = "no equals sign"; return set(k + " " + v); }
    if (r.chance(0.1)) { kind = "two equals signs"; return set(k + "=" + v + "=1"); }
    if (k == "Range") { kind = "range"; switch (r.below(6)) { case 0: return set("Range=0 1"); case 1: return set("Range=[0]"); case 2: return set("Range=[0 " + notNumber(r) + "]"); case 3: return set("Range=[" + notNumber(r) + " 1]"); case 4: return set("Range=[0 1 2]"); default: return set("Range=[0 1"); } }
    if (k == "Enabled" || k == "LockPrevious" || k == "LockRange" || k == "Default") { kind = "flag or default"; return set(k + "=" + notNumber(r)); }
    if (starts(k, "MF")) {
        size_t c = v.find(':'), b = v.find('['), e = v.rfind(']'); if (c == std::string::npos) return false;
        if (r.chance(0.2)) { kind = "term without colon"; return set(k + "=" + v.substr(0, c) + " " + v.substr(c + 1)); }
        if (r.chance(0.2)) { kind = "term without comma"; size_t co = v.find(',', c); if (co == std::string::npos) return false; v[co] = ' '; return set(k + "=" + v); }
        if (r.chance(0.3)) { kind = "class of term"; size_t co = v.find(',', c); if (co == std::string::npos) return false; return set(k + "=" + v.substr(0, c + 1) + "'" + pickS(r, {"trianglemf", "Trimf", "foo", "gausmf", "smff", "triangle"}) + "'" + v.substr(co)); }
        if (b == std::string::npos || e == std::string::npos || v.find("'function'") != std::string::npos) return false;
        Lines p; { std::istringstream t(v.substr(b + 1, e - b - 1)); std::string s; while (t >> s) p.push_back(s); } if (p.empty()) return false;
        p[r.below((int) p.size())] = notNumber(r); kind = "parameter of term"; std::string s; for (auto& x : p) s += (s.empty() ? "" : " ") + x; return set(k + "=" + v.substr(0, b + 1) + s + "]");
    }
    return false;
}
static void relayout(Rng& r, Lines& L, int f) {   // spaces around lines, blank lines, comments
    Lines o; double p = r.real(0.02, 0.4);
    static const char* BLANK[] = {"", "   ", "\t", " \t "};
    for (auto& l : L) {
        std::string s = strip(l);
        while (r.chance(p)) { if (r.coin()) o.push_back(BLANK[r.below(4)]); else { std::string c = pickS(r, {"a comment", "range: 0 1", "", "TERM x := 1", "[Rules]", "Engine: x", "END_FUNCTION_BLOCK", "%$&"}); o.push_back((r.coin() ? "" : "  ") + (f == 0 ? std::string("#") : f == 1 ? pickS(r, {"#", "//", "%"}) : pickS(r, {"#", "//", "%"})) + (r.coin() ? " " : "") + c); } }
        bool quiet = s.empty() || starts(s, "//") || s[0] == '#';
        if (!quiet && f == 1 && s.back() == ';' && r.chance(p)) s = strip(s.substr(0, s.size() - 1)); else if (!quiet && f == 1 && s.back() != ';' && r.chance(p)) s += ";";
        if (!quiet && f == 2 && r.chance(p)) { std::string t; for (char c : s) if (c != '\'') t += c; s = t; }
        if (r.chance(p)) s = (r.coin() ? "\t" : "      ") + s;
        if (!quiet && r.chance(p)) s += (f == 0 ? std::string(" # ") : pickS(r, {" # ", " // "})) + pickS(r, {"comment", "x: y", "", "rule"});
        if (r.chance(p)) s += r.coin() ? "  " : "\t";
        if (r.chance(p / 3)) s += "\r";
        o.push_back(s);
    }
    L = o;
}
static void run(Ctx& c, Rng& r, long idx) {
    static const char* F[] = {"FLL", "FCL", "FIS"}; int f = idx % 3;
    GenOpts g; g.heavy = 0.04; g.large = 0.01; g.infiniteRange = r.chance(0.1); g.unloaded = false;
    if (f) { g.descriptions = false; g.activations = false; g.maxIn = 4; g.locks = f == 2 ? 0 : 0.4; g.heights = f == 1; }
    if (f == 2) { g.maxBlocks = 1; g.outAnte = 0; g.disabled = 0.2; g.functions = false; }
    EngineSpec s = genEngine(r, g);
    for (auto& v : s.in) v.desc.clear(); for (auto& v : s.out) v.desc.clear(); s.desc.clear(); for (auto& b : s.blocks) b.desc.clear();   // texts may contain comment marks
    if (f == 2) { for (auto& b : s.blocks) b.rules.clear(); s.blocks.resize(1); for (auto& v : s.out) { v.agg = s.out[0].agg.empty() ? "Maximum" : s.out[0].agg; v.defuzz = s.out[0].defuzz; } }
    std::unique_ptr<fl::Engine> e(buildApi(s)); std::string src;
    fl::FllImporter fll; fl::FclImporter fcl; fl::FisImporter fis; const fl::Importer* im = f == 0 ? (fl::Importer*) &fll : f == 1 ? (fl::Importer*) &fcl : (fl::Importer*) &fis;
    std::unique_ptr<fl::Importer> cl(im->clone()); if (r.chance(0.2)) im = cl.get();
    std::string ex = caught([&]() { src = f == 0 ? fl::FllExporter().toString(e.get()) : f == 1 ? fl::FclExporter().toString(e.get()) : fl::FisExporter().toString(e.get()); });
    if (src.empty()) { c.count("engines the format cannot express"); return; }
    if (f == 2) for (int k = r.range(1, 4); k > 0; --k) {   // rules by their codes
        std::string l; for (auto& v : s.in) l += std::string(l.empty() ? "" : " ") + (r.chance(0.2) || v.terms.empty() ? "0" : (r.chance(0.2) ? "-" : "") + std::to_string(r.range(1, (int) v.terms.size())) + (r.chance(0.2) ? ".2" : ""));
        l += ","; for (auto& v : s.out) l += " " + std::to_string(v.terms.empty() ? 0 : r.range(1, (int) v.terms.size())); src += l + " (1) : " + (r.coin() ? "1" : "2") + "\n";
    }
    if (f) {   // properties the exporters leave out
        Lines o; bool out = false; for (auto& l : lines(src)) { o.push_back(l); std::string w = strip(l), k = first(w);
            if (f == 1) { if ((k == "FUZZIFY" || k == "DEFUZZIFY" || k == "RULEBLOCK") && r.chance(0.5)) o.push_back(std::string("  ENABLED : ") + (r.coin() ? "TRUE" : "FALSE") + ";"); if (k == "DEFUZZIFY" && r.chance(0.7)) o.push_back("  LOCK : " + pickS(r, {"PREVIOUS", "RANGE", "PREVIOUS | RANGE", "RANGE | PREVIOUS", "RANGE|PREVIOUS"}) + ";"); }
            else { if (starts(w, "[Output")) out = true; if (starts(w, "Range=")) { if (r.coin()) o.push_back(r.coin() ? "Enabled=1" : "Enabled=0"); if (out && r.coin()) o.push_back("Default=" + pickS(r, {"0.5", "nan", "-inf", "-2"})); if (out && r.coin()) o.push_back(r.coin() ? "LockPrevious=1" : "LockPrevious=0"); if (out && r.coin()) o.push_back(r.coin() ? "LockRange=1" : "LockRange=0"); } } }
        src = text(o);
    }
    Lines L = lines(src); std::unique_ptr<fl::Engine> base; c.note(std::string(F[f]) + "\n" + src);
    ex = caught([&]() { base.reset(im->fromString(src)); });
    if (!base.get()) { c.violation("import", std::string("a ") + F[f] + " description is not imported: " + ex, src); return; }
    c.count(std::string("descriptions in ") + F[f]); c.distinct(src);
    for (int k = 0; k < 8; ++k) {      // one mistake each
        Lines M = L; std::string kind; bool ok = false; std::vector<int> nt; for (auto& v : s.in) nt.push_back((int) v.terms.size());
        for (int t = 0; t < 30 && !ok; ++t) { M = L; ok = f == 0 ? faultFll(r, M, kind) : f == 1 ? faultFcl(r, M, kind) : faultFis(r, M, kind, (int) s.in.size(), (int) s.out.size(), nt); }
        if (!ok) { c.count("no mistake possible"); continue; }
        if (r.chance(0.2)) relayout(r, M, f);
        std::string bad = text(M); c.note(std::string(F[f]) + " with mistake: " + kind + "\n" + bad); bool threw; std::unique_ptr<fl::Engine> got; std::string why = caught([&]() { got.reset(im->fromString(bad)); }, &threw);
        c.count("mistakes"); c.count(std::string(F[f]) + " mistake: " + kind);
        if (!threw) { std::string at; for (size_t i = 0; i < M.size(); ++i) if (i >= L.size() || M[i] != L[i]) { at = M[i]; break; } c.violation("accepted:" + kind, std::string("a ") + F[f] + " description with a mistake (" + kind + ") is imported: " + at, bad); return; }
        if (why.compare(0, 3, "fl:")) { c.violation("exception:" + kind, "the mistake (" + kind + ") raises " + why.substr(0, 150), bad); return; }
        if (why.size() < 8) { c.violation("no-message", "the mistake (" + kind + ") is reported without a message", bad); return; }
    }
    for (int k = 0; k < 2; ++k) {      // another layout
        Lines M = L; relayout(r, M, f); std::string t = text(M); std::unique_ptr<fl::Engine> got; c.note(std::string(F[f]) + " laid out\n" + t);
        bool viaSep = f == 0 && r.chance(0.3); fl::FllImporter sepIm; if (viaSep) { std::string sep = pickS(r, {"@@", " ;; ", "<br>", "\x01"}); sepIm.setSeparator(sep); if (sepIm.getSeparator() != sep) c.violation("separator", "the separator is not read back"); t.clear(); for (auto& l : M) t += l + sep; c.count("texts with another separator"); }
        ex = caught([&]() { if (r.chance(0.05)) { std::string p = scratchDir() + "/x"; std::ofstream(p.c_str(), std::ios::binary) << t; got.reset((viaSep ? &sepIm : im)->fromFile(p)); } else got.reset((viaSep ? &sepIm : im)->fromString(t)); });
        c.count("layouts");
        if (!got.get()) { c.violation("layout-refused", std::string("a ") + F[f] + " description with another layout is refused: " + ex.substr(0, 200), t); return; }
        std::string df = diffEngines(base.get(), got.get()); if (!df.empty()) { c.violation("layout", std::string("layout or comments change what a ") + F[f] + " description means: " + df, t); return; }
    }
    if (f < 2 && r.chance(0.5)) {      // a rule that cannot be loaded is kept as it is, and the others are loaded
        Lines M; std::vector<std::string> texts; int nb = 0; for (auto& l : L) { std::string s0 = strip(l); bool rule = f == 0 ? starts(s0, "rule:") : starts(s0, "RULE "); nb += rule; }
        if (nb) {
            int at = r.below(nb), seen = 0; std::string badRule = pickS(r, {"if nothing is here then", "not a rule", "if a is b", "then x is y if z is w", "if undeclared is low then undeclared is high"});
            for (auto& l : L) { std::string s0 = strip(l); bool rule = f == 0 ? starts(s0, "rule:") : starts(s0, "RULE "); if (rule && seen++ == at) M.push_back(f == 0 ? "  rule: " + badRule : "  RULE 7 : " + badRule); else M.push_back(l); }
            std::unique_ptr<fl::Engine> got; std::string t = text(M); ex = caught([&]() { Mute m; got.reset(im->fromString(t)); }); c.count("bad rules");
            if (!got.get()) { c.violation("bad-rule", std::string("a ") + F[f] + " description with a rule that cannot be loaded is refused: " + ex.substr(0, 200), t); return; }
            int q = 0; for (size_t b = 0; b < got->ruleBlocks().size(); ++b) for (size_t i = 0; i < got->getRuleBlock(b)->rules().size(); ++i, ++q) {
                fl::Rule *x = got->getRuleBlock(b)->getRule(i), *y = base->getRuleBlock(b)->getRule(i);
                if (q == at ? x->isLoaded() || strip(x->getText()) != badRule : x->isLoaded() != y->isLoaded() || x->getText() != y->getText()) { c.violation("bad-rule", "after a rule that cannot be loaded, rule " + std::to_string(q) + " is '" + x->getText() + "' " + (x->isLoaded() ? "loaded" : "unloaded"), t); return; }
            }
            if (q != nb) c.violation("bad-rule", "rules are lost with one that cannot be loaded: " + std::to_string(q) + " of " + std::to_string(nb), t);
        }
    }
    if (c.wantSample()) c.sample(std::string(F[f]) + ": " + src.substr(0, 300));
}
Property vf::PROPERTY("P40", 9000, 250000, run, "a description of a random engine in FLL, FCL or FIS; eight copies with one mistake each (over thirty kinds), two copies with other spacing, blank lines and comments, and one with a bad rule; distinct counts descriptions",
    {{"mistakes", 30000}, {"layouts", 8000}, {"bad rules", 1500}, {"texts with another separator", 500}, {"descriptions in FLL", 2000}, {"descriptions in FCL", 2000}, {"descriptions in FIS", 1500}});
