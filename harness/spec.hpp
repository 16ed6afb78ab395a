// Engine descriptions as plain data: generator, construction through the API, own FLL writer.
#ifndef VF_SPEC_HPP
#define VF_SPEC_HPP
#include "formula.hpp"
namespace vf {
struct VarSpec {
    std::string name, desc; bool enabled = true, lockRange = false; double lo = 0, hi = 1;
    std::vector<TermSpec> terms;
    // outputs
    std::string agg, defuzz, wtype = "Automatic"; int res = 100; double def = NaN; bool lockPrev = false;
};
struct Prop { bool out = false; int var = 0; std::vector<std::string> hedges; int term = -1; /* -1: any */ };
struct Expr { enum K { P, And, Or } k = P; Prop p; std::shared_ptr<Expr> l, r; };
typedef std::shared_ptr<Expr> EX;
struct RuleSpec { EX ante; std::vector<Prop> cons; double weight = 1.0; bool enabled = true, loaded = true; std::string text; };
struct BlockSpec {
    std::string name, desc; bool enabled = true; std::string conj, disj, impl, act = "General";
    int n = 1; double thr = 0; std::string cmp = ">";
    std::vector<RuleSpec> rules;
};
struct EngineSpec { std::string name, desc; std::vector<VarSpec> in, out; std::vector<BlockSpec> blocks; };

// the decimals for a while: reading texts must not depend on them
struct Decimals { int d; explicit Decimals(int n) : d(fl::fuzzylite::decimals()) { fl::fuzzylite::setDecimals(n); } ~Decimals() { fl::fuzzylite::setDecimals(d); } };
struct GenOpts {
    int maxIn = 4, maxOut = 3, maxBlocks = 3, maxRules = 8, maxTerms = 5;
    int kind = -1;                 // 0 Mamdani 1 Larsen 2 TakagiSugeno 3 Tsukamoto 4 InverseTsukamoto 5 Hybrid; -1 any
    double disabled = 0.08;        // probability that a part is disabled
    double outAnte = 0.12;         // probability that a proposition is about an output
    double heavy = 0, weights = 0.3, hedges = 0.35, any = 0.03, locks = 0.25, nest = 0.3;
    bool unloaded = false;         // include rules that are never loaded
    bool openTerms = true, functions = true, heights = true, discrete = true, descriptions = true, activations = true;
    bool infiniteRange = false; bool customDefaults = true; bool decFull = true;
    int maxRes = 250, minRes = 5;
    double maxDepth = 3;
    double large = 0;              // probability of an engine with up to 13 inputs, outputs, terms, blocks
    double tall = 0.1, wide = 0.06; // heights above one among the heights other than one; ranges in the hundreds or thousands
};
EngineSpec genEngine(Rng& r, const GenOpts& o);
std::string exprText(const EngineSpec& e, const EX& x, Rng* r, int parent = 0);
std::string propText(const EngineSpec& e, const Prop& p);
std::string ruleText(const EngineSpec& e, const RuleSpec& q, Rng* r = nullptr);
void roundSpec(EngineSpec& e, int d);                                // to d decimals
fl::Engine* buildApi(const EngineSpec& e, bool load = true);          // constructs through setters
std::string toFll(const EngineSpec& e, int decimals = 3);             // own writer of the FLL text
std::string specStr(const EngineSpec& e);
fl::Activation* buildActivation(const BlockSpec& b);
fl::Defuzzifier* buildDefuzzifier(const VarSpec& v);
// structural comparison of two library engines through their getters; returns "" or the first difference
struct CmpOpts { bool enabled = true, descriptions = true, locks = true, resolution = true, activation = true, values = false, heights = true, weightText = true, names = true, wtype = true; double eps = 1e-9; };
std::string diffEngines(const fl::Engine* a, const fl::Engine* b, const CmpOpts& o = CmpOpts());
std::string diffTerms(const fl::Term* a, const fl::Term* b, const CmpOpts& o = CmpOpts());
// input vectors
double genInput(Rng& r, const VarSpec& v, bool hostile);
std::string vecStr(const std::vector<double>& v);
bool isIntegral(const std::string& d);
inline std::string name(const fl::Norm* n) { return n ? n->className() : std::string("none"); }
}
#endif
