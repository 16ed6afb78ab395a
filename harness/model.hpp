// Reference model of inference: evaluates an EngineSpec by the definitions and compares a library engine with it.
#ifndef VF_MODEL_HPP
#define VF_MODEL_HPP
#include "spec.hpp"
namespace vf {
struct MAct { int term; double deg; std::string impl; };
struct Model {
    struct Out { double value = NaN, prev = NaN, raw = NaN; std::vector<MAct> fuzzy; double valTol = 1e-9; std::vector<double> accept; double lo = NaN, hi = NaN; /* accepted interval of raw */ };
    struct RS { double deg = 0; bool trig = false; };
    const EngineSpec& e;
    std::vector<std::vector<std::unique_ptr<fl::Term> > > it, ot;   // own term objects, one per TermSpec (null: Linear/Function)
    std::vector<double> in;
    std::vector<Out> out;
    std::vector<std::vector<RS> > rs;
    bool fragile = false; std::string why;
    bool accumulateHedges = false; // the listed finding: hedges of a conclusion also apply to the conclusions after it
    std::string bad;               // membership of a term disagrees with its definition
    long terms = 0, props = 0, fired = 0;
    explicit Model(const EngineSpec& s);
    void setInput(size_t i, double v);
    void restart();
    // one processing step; `real` (already processed) is consulted only to order rules with equal degrees
    void process(const fl::Engine* real);
    void activateBlock(size_t block, const fl::Engine* real);   // ditto, one block added to the current fuzzy outputs
    // differences between the library engine and the model; "" when it agrees. key: classification
    std::string compare(const fl::Engine* real, std::string& key, bool checkSets = true);
    void resync(const fl::Engine* real);   // adopt values after a step that was too close to call
    double norm(const std::string& n, double a, double b);
    double hedge(const std::string& h, double x);
    double termMu(bool o, int var, int term, double x);
    double setMu(int o, double x);
    double expr(const BlockSpec& b, const EX& x);
    double accumulated(int o, int term);
    double cond(const RuleSpec& q, const BlockSpec& b);
    void fire(const BlockSpec& b, const RuleSpec& q, RS& s);
    void defuzzify(int o);
    void frag(const std::string& w) { if (!fragile) why = w; fragile = true; }
    Env env() const;
};
// the model by definition, with the model of the listed finding (P08) beside it: a disagreement that exactly this
// finding explains is reported under its own key
struct Dual {
    Model a, b; bool pattern = false;
    bool fragile() const { return a.fragile || (pattern && b.fragile); }
    explicit Dual(const EngineSpec& s) : a(s), b(s) {
        b.accumulateHedges = true;
        for (auto& k : s.blocks) for (auto& q : k.rules) for (size_t i = 0; i + 1 < q.cons.size(); ++i) pattern = pattern || !q.cons[i].hedges.empty();
    }
    void setInput(size_t i, double v) { a.setInput(i, v); b.setInput(i, v); }
    void restart() { a.restart(); b.restart(); }
    void process(const fl::Engine* r) { a.process(r); if (pattern) b.process(r); }
    void resync(const fl::Engine* r) { a.resync(r); b.resync(r); }
    std::string compare(const fl::Engine* r, std::string& key, bool sets = true) {
        std::string d = a.compare(r, key, sets), k2;
        if (pattern) {
            std::string d2 = b.compare(r, k2, sets);
            if (!d.empty() && d2.empty()) { key = "kf:consequent-hedges-accumulate"; a.resync(r); }
            else b.resync(r);
        }
        return d;
    }
};
// defuzzification of sampled memberships by definition; interval of acceptable results
struct Defuzz { double lo, hi, tol; bool skip; };
Defuzz defuzzDef(const std::string& cls, const std::vector<double>& xs, const std::vector<double>& ys);
std::vector<double> midpoints(double lo, double hi, int res);
// state of an engine as text (bit-exact values), for histories
std::string outputsStr(const fl::Engine* e);
}
#endif
