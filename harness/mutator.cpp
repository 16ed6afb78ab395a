#include "mutator.hpp"
#include <cstdlib>
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
namespace vf {
typedef std::vector<std::string> SV;
static void walk(const std::string& d, const std::string& ext, std::vector<std::pair<std::string, std::string> >& out) {
    DIR* p = opendir(d.c_str()); if (!p) return;
    while (dirent* e = readdir(p)) {
        std::string n = e->d_name, f = d + "/" + n; if (n == "." || n == "..") continue;
        struct stat st; if (stat(f.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) walk(f, ext, out);
        else if (n.size() > ext.size() && n.substr(n.size() - ext.size()) == ext) out.push_back(std::make_pair(f, readFile(f)));
    }
    closedir(p);
}
SV examplesOf(const std::string& ext) {
    const char* repo = getenv("VF_REPO"); std::vector<std::pair<std::string, std::string> > f; walk(std::string(repo ? repo : "/repo") + "/examples", ext, f);
    std::sort(f.begin(), f.end(), [](const std::pair<std::string, std::string>& a, const std::pair<std::string, std::string>& b) { return a.second.size() != b.second.size() ? a.second.size() < b.second.size() : a.first < b.first; });
    SV v; for (auto& p : f) v.push_back(p.second); return v;
}
#define TERMNAMES "Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Function", "Gaussian", "GaussianProduct", "Linear", "PiShape", "Ramp", "Rectangle", "SShape", "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape", "Activated", "Aggregated"
#define NORMNAMES "Minimum", "AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "NilpotentMinimum", "Maximum", "AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum", "none"
#define DEFNAMES "Centroid", "Bisector", "SmallestOfMaximum", "LargestOfMaximum", "MeanOfMaximum", "WeightedAverage", "WeightedSum", "Automatic", "TakagiSugeno", "Tsukamoto"
#define ACTNAMES "General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold", ">", ">=", "<", "<=", "==", "!="
#define RULEWORDS "if", "is", "then", "and", "or", "with", "not", "very", "any", "seldom", "somewhat", "extremely", "(", ")"
#define NUMBERS "0", "1", "-1", "0.5", "nan", "inf", "-inf", "1e300", "1e-300"
const SV FLL_DICT = {"Engine:", "InputVariable:", "OutputVariable:", "RuleBlock:", "enabled:", "true", "false", "range:", "lock-range:", "lock-previous:", "lock-valid:", "default:", "term:", "aggregation:", "accumulation:", "defuzzifier:", "conjunction:", "disjunction:", "implication:", "activation:", "rule:", "description:", "name", ":", "#", "\n", "\n\n", "\t", TERMNAMES, NORMNAMES, DEFNAMES, ACTNAMES, RULEWORDS, NUMBERS};
const SV FIS_DICT = {"[System]", "[Input1]", "[Output1]", "[Rules]", "[Input", "[", "]", "Name=", "Type=", "Version=2.0", "NumInputs=", "AndMethod=", "OrMethod=", "ImpMethod=", "AggMethod=", "DefuzzMethod=", "Range=", "Range=[0 1]", "MF1=", "Enabled=", "Default=", "LockPrevious=", "LockRange=", "'", ":", ",", "=", "1", "2", "(1)", "(0.5)", "(", ")", "-1", "1.3", "1.2", "1.01", "1.99", "0.99", "-0.99", "1.4", "99999999999", "-99999999999", "min", "prod", "max", "probor", "sum", "bounded_difference", "drastic_sum", "centroid", "bisector", "mom", "lom", "som", "wtaver", "wtsum", "trimf", "trapmf", "gaussmf", "gauss2mf", "gbellmf", "sigmf", "dsigmf", "psigmf", "pimf", "smf", "zmf", "constant", "linear", "function", "discretemf", "binarymf", "rampmf", "rectmf", "spikemf", "cosinemf", "concavemf", TERMNAMES, NUMBERS, "%", "//", "#", "\n"};
const SV FCL_DICT = {"FUNCTION_BLOCK", "END_FUNCTION_BLOCK", "VAR_INPUT", "VAR_OUTPUT", "END_VAR", "FUZZIFY", "END_FUZZIFY", "DEFUZZIFY", "END_DEFUZZIFY", "RULEBLOCK", "END_RULEBLOCK", "RANGE := (0 .. 1);", "RANGE", "TERM", ":=", "TERM t := 1.0;", "METHOD : ", "METHOD : COG;", "ACCU : ", "ACCU : MAX;", "DEFAULT := ", "DEFAULT := 0 | NC;", "NC", "LOCK : PREVIOUS | RANGE;", "LOCK : ", "PREVIOUS", "ENABLED : ", "TRUE", "FALSE", "AND : ", "OR : ", "ACT : ", "AND : MIN;", "RULE 1 : ", "RULE", "REAL", ":", ";", "(", ")", ",", "..", "|", "COG", "COA", "LM", "RM", "MM", "COGS", "COGSS", "NONE", "MIN", "PROD", "BDIF", "DPROD", "EPROD", "HPROD", "NMIN", "MAX", "ASUM", "BSUM", "NSUM", "DSUM", "ESUM", "HSUM", "NMAX", "IF", "//", "#", "%", "\n", TERMNAMES, RULEWORDS, NUMBERS};
const SV RULE_DICT = {RULEWORDS, NUMBERS, "low", "high", "a", "b", "o", "# comment", "%", ",", ".", "\t", "\n", "with 0.5", "then then", "is is"};
const SV FORMULA_DICT = {"+", "-", "*", "/", "^", "%", "!", "~", "and", "or", "(", ")", ",", "sin", "cos", "pow", "max", "min", "atan2", "fmod", "log", "exp", "sqrt", "gt", "ge", "eq", "neq", "le", "lt", "acos", "round", "abs", "pi", "x", "y", "a", "b", "o", " ", "1.", ".5", "..", NUMBERS, "sin(", "pow(1,", "((", "))", "()", ",,", "$", "_", "#", "1e5", "x x"};
const SV PARAM_DICT = {NUMBERS, TERMNAMES, ACTNAMES, DEFNAMES, NORMNAMES, " ", ",", "\t", "(", ")", "1e", "--1", "+1", "0x1p3", "1_000"};
std::string hostileNumber(Rng& r) {
    switch (r.below(10)) {
        case 0: return pickS(r, {"nan", "inf", "-inf", "NaN", "INF", "-nan", "+inf", "infinity"});
        case 1: return pickS(r, {"1e400", "-1e400", "1e-400", "1.7976931348623157e308", "4.9e-324", "1e308", "-1e308"});
        case 2: return pickS(r, {"2147483647", "2147483648", "-2147483649", "9223372036854775808", "18446744073709551616", "99999999999999999999"});
        case 3: return pickS(r, {"", "-", "+", ".", "1.2.3", "0x10", "1,5", "1e", "e5", "--1", "1 2", "one"});
        case 4: return pickS(r, {"0", "-0", "1", "-1", "0.000000001", "1e-7", "0.999999999", "1.000000001"});
        case 5: return std::string(r.range(20, 400), '9');
        default: return num(r.dec(-10, 10));
    }
}
static SV tokens(const std::string& s, SV& seps) {
    SV t; std::string cur, sep; bool inTok = false;
    for (char ch : s) { bool w = ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'; if (w) { if (inTok) { t.push_back(cur); cur.clear(); inTok = false; } sep += ch; } else { if (!inTok) { seps.push_back(sep); sep.clear(); inTok = true; } cur += ch; } }
    if (inTok) t.push_back(cur); seps.push_back(sep); return t;
}
static std::string join(const SV& t, const SV& seps) { std::string s; for (size_t i = 0; i < t.size(); ++i) { s += i < seps.size() ? seps[i] : " "; s += t[i]; } if (seps.size() > t.size()) s += seps.back(); return s; }
std::string mutateText(Rng& r, std::string s, const SV& dict, const std::string& other, int rounds) {
    while (rounds-- > 0) {
        int op = r.below(23);
        if (op < 9) {
            SV seps, t = tokens(s, seps); if (t.empty()) { s += r.pick(dict); continue; }
            int i = r.below((int) t.size());
            switch (op) {
                case 0: t.erase(t.begin() + i); seps.erase(seps.begin() + i); break;
                case 1: case 2: t[i] = r.pick(dict); break;
                case 3: { for (int k = 0; k < 12; ++k) { int j = r.below((int) t.size()); if (isdigit((unsigned char) t[j][t[j].size() - 1]) || t[j] == "nan" || t[j] == "inf") { i = j; break; } } t[i] = hostileNumber(r); break; }
                case 4: t.insert(t.begin() + i, r.pick(dict)); seps.insert(seps.begin() + i, r.coin() ? " " : ""); break;
                case 5: std::swap(t[i], t[r.below((int) t.size())]); break;
                case 6: { int n = r.chance(0.1) ? r.range(20, 60) : 1; std::string x = t[i]; for (int k = 0; k < n; ++k) { t.insert(t.begin() + i, x); seps.insert(seps.begin() + i, " "); } break; }
                case 7: seps[i] = pickS(r, {"", " ", "  ", "\t", "\n", "\r\n", " \n "}); break;
                default: t[i] = (r.coin() ? "(" : "") + t[i] + (r.coin() ? ")" : ""); break;
            }
            s = join(t, seps);
        } else if (op < 15) {
            SV l; std::istringstream in(s); std::string x; while (std::getline(in, x)) l.push_back(x); if (l.empty()) { s += "\n"; continue; }
            int i = r.below((int) l.size()), j = r.below((int) l.size());
            switch (op) {
                case 9: l.erase(l.begin() + i); break;
                case 10: { std::string y = l[i]; l.insert(l.begin() + j, y); break; }
                case 11: std::swap(l[i], l[j]); break;
                case 12: { size_t p = l[i].find_first_of(":="); if (p != std::string::npos) l[i] = r.coin() ? l[i].substr(0, p + 1) : l[i].substr(0, p); break; }
                case 13: { SV m; std::istringstream in2(other); while (std::getline(in2, x)) m.push_back(x); if (!m.empty()) l.insert(l.begin() + i, m[r.below((int) m.size())]); break; }
                default: if (r.coin()) l.resize(i + 1); else l.erase(l.begin(), l.begin() + i); break;
            }
            s.clear(); for (auto& y : l) s += y + "\n";
        } else if (op >= 20) {
            // a word between delimiters is blanked, removed or replaced
            if (s.empty()) continue; size_t i = r.below((int) s.size()); while (i < s.size() && !isalnum((unsigned char) s[i])) ++i; if (i >= s.size()) continue;
            size_t a = i, b = i; auto word = [&](char ch) { return isalnum((unsigned char) ch) || ch == '_' || ch == '.'; }; while (a > 0 && word(s[a - 1])) --a; while (b < s.size() && word(s[b])) ++b;
            s = s.substr(0, a) + (op == 20 ? "" : op == 21 ? pickS(r, {" ", "  ", "\t"}) : r.coin() ? hostileNumber(r) : r.pick(dict)) + s.substr(b);
        } else {
            size_t i = s.empty() ? 0 : r.below((int) s.size());
            switch (op) {
                case 15: { static const std::string P = "()[]{}:;=,.'\"#%/\\|<>+-*^~!$&@_ \t\n\r0aZ"; s.insert(i, 1, P[r.below((int) P.size())]); break; }
                case 16: if (!s.empty()) s.erase(i, r.range(1, r.coin() ? 1 : 8)); break;
                case 17: s.insert(i, 1, (char) r.below(256)); break;
                case 18: if (r.chance(0.5)) s = s.substr(0, i); else s.insert(i, other.substr(other.empty() ? 0 : r.below((int) other.size()), r.range(1, 60))); break;
                default: if (!s.empty()) s[i] = (char) r.below(256); break;
            }
        }
        if (s.size() > 60000) s.resize(60000);
    }
    return s;
}
}
