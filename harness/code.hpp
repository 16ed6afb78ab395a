// Strict interpreter of the subset of C++ and Java that builds engines: every statement is checked and executed on the library.
#ifndef VF_CODE_HPP
#define VF_CODE_HPP
#include "state.hpp"
namespace vf {
enum Lang { CPP, CPP_PREFIX, JAVA };
// returns the engine built, or null with the reason and the statement
std::unique_ptr<fl::Engine> interpret(const std::string& code, Lang lang, std::string& error, long& statements, std::vector<std::string>* names = nullptr);
EngineSpec genCodeEngine(Rng& r, bool names);      // an engine for the exporters of code; names: usable as names of variables
}
#endif
