// Observation from inside the library: an activation method that records the inputs of its engine at each processing.
#ifndef VF_PROBE_HPP
#define VF_PROBE_HPP
#include "state.hpp"
namespace vf {
struct Probe : fl::Activation {
    const fl::Engine* engine; std::vector<std::vector<double> >* log;
    Probe(const fl::Engine* e, std::vector<std::vector<double> >* l) : engine(e), log(l) {}
    std::string className() const override { return "Probe"; }
    std::string parameters() const override { return ""; }
    void configure(const std::string&) override {}
    void activate(fl::RuleBlock*) override { std::vector<double> v; for (auto i : engine->inputVariables()) v.push_back(i->getValue()); log->push_back(v); }
    Probe* clone() const override { return new Probe(*this); }
};
inline void attach(fl::Engine* e, std::vector<std::vector<double> >* log) { fl::RuleBlock* b = new fl::RuleBlock("probe"); b->setActivation(new Probe(e, log)); e->insertRuleBlock(b, 0); }
// how datasets print a value
inline std::string cell(double x, int d) { if (std::isfinite(x) && std::fabs(x) < std::pow(10.0, -d)) x = 0; return dec3(x, d); }
inline bool cellOk(const std::string& s, double x, int d) {
    if (s == cell(x, d)) return true;
    if (!std::isfinite(x)) return false;
    double e = std::pow(10.0, -d);       // too close to zero or to a rounding boundary to call
    if (std::fabs(std::fabs(x) - e) < e * 1e-9) return s == dec3(0, d) || s == dec3(x, d);
    char b[64]; snprintf(b, sizeof b, "%.*f", d, x); return std::fabs(x) > e && s == b;   // negative zero cannot occur here
}
// the steps of a grid: number of values of one variable, as few or many as the total allows
inline bool stepsOk(long k, long values, size_t n, bool each) {
    if (each) return k == std::max(1L, values);
    if (k < 1) return false;
    long double p = 1, q = 1;   // exact: the greatest k of k^n <= values
    for (size_t i = 0; i < n; ++i) { p *= k; q *= k + 1; }
    return (k == 1 || p <= values) && q > values;
}
}
#endif
