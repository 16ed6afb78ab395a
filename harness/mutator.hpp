// Hostile texts: structure-aware mutation of texts in the formats of the library.
#ifndef VF_MUTATOR_HPP
#define VF_MUTATOR_HPP
#include "common.hpp"
namespace vf {
std::vector<std::string> examplesOf(const std::string& ext);    // shipped examples, smallest first
std::string hostileNumber(Rng& r);
std::string mutateText(Rng& r, std::string s, const std::vector<std::string>& dict, const std::string& other, int rounds);
extern const std::vector<std::string> FLL_DICT, FIS_DICT, FCL_DICT, RULE_DICT, FORMULA_DICT, PARAM_DICT;
}
#endif
