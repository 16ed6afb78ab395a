// Runs the compiled exports: each function builds an engine, which is compared with the description and the outputs expected.
#include "code.hpp"
#include <fcntl.h>
#include <unistd.h>
namespace vf { Property PROPERTY("P22run", 0, 0, nullptr, ""); }
using namespace vf;
struct Entry { int id; fl::Engine* (*make)(); };
extern Entry ENTRIES[] __attribute__((weak));
int p22main(int argc, char** argv) {
    std::string dir = argv[1]; FILE* out = fopen(argv[2], "w"); long fns = 0, steps = 0;
    fl::FactoryManager::instance();
    auto bad = [&](int id, const std::string& key, const std::string& msg) { fprintf(out, "{\"type\":\"violation\",\"case\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"detail\":\"%s\"}\n", id, key.c_str(), jsonEscape(msg).c_str(), jsonEscape(readFile(dir + "/" + std::to_string(id) + ".cpp")).c_str()); };
    for (Entry* e = ENTRIES; e->make; ++e) {
        fprintf(stderr, "running %d\n", e->id); ++fns;
        std::unique_ptr<fl::Engine> g; std::string why = caught([&]() { g.reset(e->make()); });
        if (!g.get()) { bad(e->id, "compiled-fails", "the compiled code fails: " + why); continue; }
        std::string exp = readFile(dir + "/" + std::to_string(e->id) + ".txt"), want, line; size_t eq = exp.find("\n= "); want = exp.substr(eq + 3); std::istringstream in(exp.substr(0, eq));
        std::string got = describe(g.get(), false); if (got != want) { bad(e->id, "compiled-differs", "the compiled code builds another engine: " + diffText(want, got)); continue; }
        while (std::getline(in, line)) {
            if (line[0] == '>') { std::istringstream v(line.substr(2)); std::string x; size_t i = 0; while (v >> x) g->getInputVariable(i++)->setValue(strtod(x.c_str(), nullptr)); continue; }
            bool threw; caught([&]() { g->process(); }, &threw); std::string s; if (threw) s = "fails"; else for (auto o : g->outputVariables()) s += o->getName() + "=" + num(o->getValue()) + " ";
            ++steps; if (s != line.substr(2)) { bad(e->id, "compiled-behaviour", "the engine of the compiled code computes " + s + " instead of " + line.substr(2)); break; }
        }
    }
    fprintf(out, "{\"type\":\"summary\",\"cases\":0,\"counters\":{\"compiled functions\":%ld,\"compiled steps\":%ld},\"samples\":[],\"violations\":0}\n", fns, steps); fclose(out);
    (void) argc; return 0;
}
