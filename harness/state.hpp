// Complete observable state of engines, the objects they own and refer to, and random changes to them.
#ifndef VF_STATE_HPP
#define VF_STATE_HPP
#include "model.hpp"
namespace vf {
// the whole description and state as text with all digits; empty lines separate the parts
std::string describeTerm(const fl::Term* t);
std::string describeVar(const fl::Variable* v, bool values = true);
std::string describeRule(const fl::Rule* q, bool values = true);
std::string describeBlock(const fl::RuleBlock* b, bool values = true);
std::string describe(const fl::Engine* e, bool values = true);
std::string diffText(const std::string& a, const std::string& b);    // the first line that differs
void owned(const fl::Variable* v, std::set<const void*>& s, bool roots = true);
void owned(const fl::RuleBlock* b, std::set<const void*>& s);
std::set<const void*> owned(const fl::Engine* e, bool roots = true);
std::string foreign(const fl::Engine* e);       // a reference to something the engine does not own; "" if none
// random changes through the public interface; structure: parts may be added, removed and replaced
std::string mutateTerm(fl::Term* t, Rng& r);
std::string mutateVar(fl::Variable* v, Rng& r, bool structure);
std::string mutateBlock(fl::RuleBlock* b, Rng& r, bool structure);
std::string mutate(fl::Engine* e, Rng& r, bool structure);
}
#endif
