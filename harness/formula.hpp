// Formulas: random expression trees, their own printing and their own evaluation.
#ifndef VF_FORMULA_HPP
#define VF_FORMULA_HPP
#include "defs.hpp"
namespace vf {
struct FormulaAst {
    enum K { Num, Var, Un, Bin, F1, F2 } k = Num;
    double v = 0; std::string s;             // number / variable, operator or function name
    std::vector<std::shared_ptr<FormulaAst> > c;
};
typedef std::shared_ptr<FormulaAst> FA;
typedef std::map<std::string, double> Env;
inline int prec(const std::string& op) {
    if (op == "^") return 90;
    if (op == "*" || op == "/" || op == "%") return 80;
    if (op == "+" || op == "-") return 70;
    if (op == "and") return 60;
    if (op == "or") return 50;
    return 100;
}
struct FEval { bool fragile = false; };   // set when a comparison or rounding decision is too close to call
inline double feval(const FA& a, const Env& e, FEval* st) {
    switch (a->k) {
        case FormulaAst::Num: return a->v;
        case FormulaAst::Var: { Env::const_iterator i = e.find(a->s); if (i == e.end()) throw std::runtime_error("no variable " + a->s); return i->second; }
        case FormulaAst::Un: { double x = feval(a->c[0], e, st); if (a->s == "~") return -x; if (borderline(x, 1.0)) st->fragile = true; return mEq(x, 1.0) ? 0.0 : 1.0; }
        default: break;
    }
    double x = feval(a->c[0], e, st), y = a->c.size() > 1 ? feval(a->c[1], e, st) : NaN;
    const std::string& s = a->s;
    // the sign of a zero is not specified: results that depend on it are not judged
    if ((s == "/" && y == 0) || ((s == "^" || s == "pow") && x == 0 && y < 0) || (s == "atan2" && (x == 0 || y == 0))) st->fragile = true;
    if (a->k == FormulaAst::Bin) {
        if (s == "^") return std::pow(x, y);
        if (s == "*") return x * y;
        if (s == "/") return x / y;
        if (s == "%") { double q = x / y; if (std::isfinite(q) && std::fabs(q - std::floor(q + 0.5)) < 1e-9 * std::max(1.0, std::fabs(q)) && q != 0) st->fragile = st->fragile || !(x == std::floor(x) && y == std::floor(y)); return std::fmod(x, y); }
        if (s == "+") return x + y;
        if (s == "-") return x - y;
        if (borderline(x, 1.0) || borderline(y, 1.0)) st->fragile = true;
        if (s == "and") return mEq(x, 1.0) && mEq(y, 1.0) ? 1.0 : 0.0;
        if (s == "or") return mEq(x, 1.0) || mEq(y, 1.0) ? 1.0 : 0.0;
    }
    if (a->k == FormulaAst::F1) {
        if (s == "abs" || s == "fabs") return std::fabs(x);
        if (s == "acos") return std::acos(x);
        if (s == "asin") return std::asin(x);
        if (s == "atan") return std::atan(x);
        if (s == "ceil" || s == "floor") { if (std::fabs(x - std::floor(x + 0.5)) < 1e-9 && x != std::floor(x + 0.5)) st->fragile = true; return s == "ceil" ? std::ceil(x) : std::floor(x); }
        if (s == "cos") return std::cos(x);
        if (s == "cosh") return std::cosh(x);
        if (s == "exp") return std::exp(x);
        if (s == "log") return std::log(x);
        if (s == "log10") return std::log10(x);
        if (s == "round") { double f = std::fabs(x) - std::floor(std::fabs(x)); if (std::fabs(f - 0.5) < 1e-9 && f != 0.5) st->fragile = true; return x >= 0 ? std::floor(x + 0.5) : -std::floor(-x + 0.5); }
        if (s == "sin") return std::sin(x);
        if (s == "sinh") return std::sinh(x);
        if (s == "sqrt") return std::sqrt(x);
        if (s == "tan") return std::tan(x);
        if (s == "tanh") return std::tanh(x);
        if (s == "acosh") return std::acosh(x);
        if (s == "asinh") return std::asinh(x);
        if (s == "atanh") return std::atanh(x);
        if (s == "log1p") return std::log1p(x);
    }
    if (a->k == FormulaAst::F2) {
        if (s == "atan2") return std::atan2(x, y);
        if (s == "fmod") { double q = x / y; if (std::isfinite(q) && std::fabs(q - std::floor(q + 0.5)) < 1e-9 * std::max(1.0, std::fabs(q)) && q != 0) st->fragile = st->fragile || !(x == std::floor(x) && y == std::floor(y)); return std::fmod(x, y); }
        if (s == "max") return mx(x, y);
        if (s == "min") return mn(x, y);
        if (s == "pow") return std::pow(x, y);
        if (borderline(x, y)) st->fragile = true;
        if (s == "eq") return mEq(x, y) ? 1.0 : 0.0;
        if (s == "neq") return mEq(x, y) ? 0.0 : 1.0;
        if (s == "ge") return mGe(x, y) ? 1.0 : 0.0;
        if (s == "gt") return mGt(x, y) ? 1.0 : 0.0;
        if (s == "le") return mLe(x, y) ? 1.0 : 0.0;
        if (s == "lt") return mLt(x, y) ? 1.0 : 0.0;
    }
    throw std::runtime_error("unknown element " + s);
}
// magnitude of intermediate values: used to scale the comparison tolerance
inline double fmag(const FA& a, const Env& e) {
    FEval st; double m = 0;
    for (auto& k : a->c) m = std::max(m, fmag(k, e));
    double v = 0; try { v = std::fabs(feval(a, e, &st)); } catch (...) {}
    return std::isfinite(v) ? std::max(m, v) : m;
}
inline FA fnum(double v) { FA a(new FormulaAst); a->k = FormulaAst::Num; a->v = v; return a; }
inline FA fvar(const std::string& s) { FA a(new FormulaAst); a->k = FormulaAst::Var; a->s = s; return a; }
inline FA fnode(FormulaAst::K k, const std::string& s, FA x, FA y = FA()) { FA a(new FormulaAst); a->k = k; a->s = s; a->c.push_back(x); if (y) a->c.push_back(y); return a; }
// `tame`: only total, smooth operations with values of moderate size (used inside engines)
inline FA fgen(Rng& r, const std::vector<std::string>& vars, int depth, bool tame) {
    static const char* f1[] = {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10", "round", "sin", "sinh", "sqrt", "tan", "tanh", "acosh", "asinh", "atanh", "log1p"};
    static const char* f2[] = {"atan2", "fmod", "max", "min", "pow", "eq", "neq", "ge", "gt", "le", "lt"};
    if (depth <= 0 || r.chance(0.12)) {
        if (!vars.empty() && r.chance(0.6)) return fvar(r.pick(vars));
        int k = r.below(4);
        return fnum(k == 0 ? r.below(5) : k == 1 ? r.below(100) : r.dec(0, k == 2 ? 2 : 20));
    }
    if (tame) {
        switch (r.below(8)) {
            case 0: case 1: return fnode(FormulaAst::Bin, "+", fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
            case 2: return fnode(FormulaAst::Bin, "-", fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
            case 3: return fnode(FormulaAst::Bin, "*", fgen(r, vars, depth - 1, tame), fnum(r.dec(0, 2)));
            case 4: return fnode(FormulaAst::F1, pickS(r, {"sin", "cos", "abs", "tanh", "atan"}), fgen(r, vars, depth - 1, tame));
            case 5: return fnode(FormulaAst::F2, pickS(r, {"min", "max"}), fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
            case 6: return fnode(FormulaAst::Un, "~", fgen(r, vars, depth - 1, tame));
            default: return fnode(FormulaAst::Bin, "/", fgen(r, vars, depth - 1, tame), fnum(r.dec(1, 5)));
        }
    }
    int k = r.below(20);
    if (k < 9) return fnode(FormulaAst::Bin, pickS(r, {"+", "-", "*", "/", "^", "%", "+", "-", "*"}), fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
    if (k < 11) return fnode(FormulaAst::Bin, pickS(r, {"and", "or"}), fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
    if (k < 13) return fnode(FormulaAst::Un, pickS(r, {"!", "~"}), fgen(r, vars, depth - 1, tame));
    if (k < 17) return fnode(FormulaAst::F1, f1[r.below(22)], fgen(r, vars, depth - 1, tame));
    return fnode(FormulaAst::F2, f2[r.below(11)], fgen(r, vars, depth - 1, tame), fgen(r, vars, depth - 1, tame));
}
inline std::string fsp(Rng* r) { if (!r) return " "; int k = r->below(8); return k == 0 ? "  " : k == 1 ? "\t" : " "; }
inline std::string ftight(Rng* r) { return r && r->coin() ? "" : " "; }
// infix text; with an Rng: random spacing and redundant parentheses
inline std::string fprint(const FA& a, Rng* r) {
    std::string s;
    switch (a->k) {
        case FormulaAst::Num: { s = dec3(a->v); if (r && r->chance(0.5) && a->v == std::floor(a->v)) s = std::to_string((long) a->v); break; }
        case FormulaAst::Var: s = a->s; break;
        case FormulaAst::Un: {
            std::string x = fprint(a->c[0], r);
            if (a->c[0]->k == FormulaAst::Bin) x = "(" + x + ")";
            s = a->s + ftight(r) + x; break;
        }
        case FormulaAst::Bin: {
            std::string l = fprint(a->c[0], r), q = fprint(a->c[1], r);
            int p = prec(a->s); bool right = a->s == "^";
            if (a->c[0]->k == FormulaAst::Bin) { int cp = prec(a->c[0]->s); if (cp < p || (cp == p && right)) l = "(" + l + ")"; }
            if (a->c[1]->k == FormulaAst::Bin) { int cp = prec(a->c[1]->s); if (cp < p || (cp == p && !right)) q = "(" + q + ")"; }
            bool word = a->s == "and" || a->s == "or";
            std::string t = word ? fsp(r) : ftight(r);
            s = l + t + a->s + (word ? fsp(r) : ftight(r)) + q; break;
        }
        default: {
            s = a->s + ftight(r) + "(" + fprint(a->c[0], r);
            if (a->c.size() > 1) s += ftight(r) + "," + ftight(r) + fprint(a->c[1], r);
            s += ")";
        }
    }
    if (r && r->chance(0.07)) s = "(" + s + ")";
    return s;
}
inline void fvars(const FA& a, std::set<std::string>& out) { if (a->k == FormulaAst::Var) out.insert(a->s); for (auto& k : a->c) fvars(k, out); }
inline int fsize(const FA& a) { int n = 1; for (auto& k : a->c) n += fsize(k); return n; }
}
#endif
