#include "state.hpp"
#include <atomic>
#include <thread>
using namespace vf;
// one unit of work of a thread: everything it touches is its own. Returns everything observed.
struct Task { uint64_t seed; const EngineSpec* spec; fl::Engine* mine; int thread; };
static std::string outputsOf(fl::Engine* e, Rng& r, const EngineSpec& s, int n) {
    std::string t;
    for (int k = 0; k < n; ++k) { std::string why = caught([&]() { for (size_t i = 0; i < s.in.size(); ++i) e->getInputVariable(i)->setValue(genInput(r, s.in[i], false)); e->process(); }); t += why.empty() ? outputsStr(e) : "fails " + why.substr(0, 40); t += "\n"; }
    return t;
}
static std::string work(const Task& t, std::map<std::string, long>& count) {
    Rng r(t.seed); std::string s; std::unique_ptr<fl::Engine> e; const EngineSpec& q = *t.spec;
    auto ex = [&](const std::string& what, const std::function<std::string()>& f) { std::string v, w = caught([&]() { v = f(); }); s += what + ": " + (w.empty() ? v : w.substr(0, w.find('\n'))) + "\n"; count[what]++; };
    if (t.mine) { ex("process own copy", [&]() { return outputsOf(t.mine, r, q, 4); }); ex("change own copy", [&]() { std::string m = mutate(t.mine, r, true); return m; }); ex("copy of own copy", [&]() { std::unique_ptr<fl::Engine> k(t.mine->clone()); return k->toString(); }); }
    int n = r.range(2, 5);
    for (int k = 0; k < n; ++k) switch (k == 0 ? 0 : r.below(13)) {
        case 0: ex("build and process", [&]() { e.reset(buildApi(q)); return outputsOf(e.get(), r, q, 4); }); break;
        case 1: ex("import FLL", [&]() { std::unique_ptr<fl::Engine> i(fl::FllImporter().fromString(toFll(q, 3))); return outputsOf(i.get(), r, q, 3) + i->toString(); }); break;
        case 2: ex("FIS", [&]() { std::string x = fl::FisExporter().toString(e.get()); std::unique_ptr<fl::Engine> i(fl::FisImporter().fromString(x)); return x + i->toString() + outputsOf(i.get(), r, q, 2); }); break;
        case 3: ex("FCL", [&]() { std::string x = fl::FclExporter().toString(e.get()); std::unique_ptr<fl::Engine> i(fl::FclImporter().fromString(x)); return x + i->toString() + outputsOf(i.get(), r, q, 2); }); break;
        case 4: ex("code", [&]() { return fl::CppExporter().toString(e.get()) + fl::JavaExporter().toString(e.get()); }); break;
        case 5: ex("dataset", [&]() { return fl::FldExporter().toString(e.get(), 27, fl::FldExporter::AllVariables); }); break;
        case 6: ex("R script", [&]() { fl::RScriptExporter x; return x.toString(e.get(), e->getInputVariable(0), e->getInputVariable(e->numberOfInputVariables() - 1), 16, fl::FldExporter::AllVariables, e->outputVariables()); }); break;
        case 7: ex("copy and process", [&]() { std::unique_ptr<fl::Engine> c(r.coin() ? e->clone() : new fl::Engine(*e)); std::string m = mutate(c.get(), r, true); return m + outputsOf(e.get(), r, q, 2); }); break;
        case 8: ex("benchmark", [&]() { fl::Benchmark b("b", e.get()); b.prepare(16, fl::FldExporter::AllVariables); b.run(1); std::string o; for (auto& v : b.getObtained()) o += vecStr(v); return o + std::to_string(b.numberOfErrors(fl::Benchmark::All)); }); break;
        case 9: ex("formula", [&]() { fl::Function f("f", "x*2 + sin(x)^2 - max(a,b)"); f.variables["a"] = r.unit(); f.variables["b"] = r.unit(); f.load(); return num(f.membership(r.unit())) + f.root()->toInfix() + f.root()->toPrefix(); }); break;
        case 10: ex("factories", [&]() { std::string o; fl::FactoryManager* m = fl::FactoryManager::instance(); for (auto& k : m->term()->available()) { std::unique_ptr<fl::Term> x(m->term()->constructObject(k)); o += x.get() ? x->className() : "-"; } for (auto& k : m->hedge()->available()) { std::unique_ptr<fl::Hedge> x(m->hedge()->constructObject(k)); o += x.get() ? num(x->hedge(0.3)) : "-"; } for (auto& k : m->tnorm()->available()) { std::unique_ptr<fl::TNorm> x(m->tnorm()->constructObject(k)); o += x.get() ? num(x->compute(0.3, 0.6)) : "-"; } for (auto& k : m->snorm()->available()) { std::unique_ptr<fl::SNorm> x(m->snorm()->constructObject(k)); o += x.get() ? num(x->compute(0.3, 0.6)) : "-"; } for (auto& k : m->defuzzifier()->available()) { std::unique_ptr<fl::Defuzzifier> x(m->defuzzifier()->constructObject(k)); o += x.get() ? x->className() : "-"; } for (auto& k : m->activation()->available()) { std::unique_ptr<fl::Activation> x(m->activation()->constructObject(k)); o += x.get() ? x->className() : "-"; } for (auto& k : m->function()->available()) { std::unique_ptr<fl::Function::Element> x(m->function()->cloneObject(k)); o += x->toString(); } return o; }); break;
        case 11: ex("failing import", [&]() { std::unique_ptr<fl::Engine> i(fl::FllImporter().fromString("Engine: x\nInputVariable: a\n  term: t Nothing 1 2\n")); return std::string("imported"); }); break;
        default: ex("describe", [&]() { std::string m; e->isReady(&m); std::string ty, re; e->type(&ty, &re); std::string o = m + ty + re + e->toString(); for (auto v : e->variables()) { o += v->fuzzify(0.3); v->sort(); o += v->toString(); } return o; });
    }
    return s;
}
static void run(Ctx& c, Rng& r, long idx) {
    bool cold = c.counters["cases"] == 0 && idx >= 0; fl::fuzzylite::setLogging(false); c.count("cases");
    int T = r.range(2, 6), per = cold ? 1 : r.range(1, 3); GenOpts g; g.maxRes = 40; g.maxRules = 4; g.maxIn = 3; g.maxTerms = 4; g.locks = 0.2;
    std::vector<EngineSpec> specs; int ns = r.range(1, T); for (int i = 0; i < ns; ++i) specs.push_back(genEngine(r, g));
    // sometimes every thread gets a copy of the same engine
    bool shared = !cold && r.chance(0.6); std::unique_ptr<fl::Engine> source; if (shared) source.reset(buildApi(specs[0])); if (shared && r.coin()) caught([&]() { for (size_t i = 0; i < specs[0].in.size(); ++i) source->getInputVariable(i)->setValue(0.5); source->process(); });
    std::vector<std::vector<Task> > tasks(T); std::vector<std::unique_ptr<fl::Engine> > copies, again;
    for (int t = 0; t < T; ++t) for (int k = 0; k < per; ++k) { Task q; q.seed = r.next(); q.spec = shared && k == 0 ? &specs[0] : &specs[r.below(ns)]; q.mine = nullptr; q.thread = t; if (shared && k == 0) { copies.emplace_back(source->clone()); again.emplace_back(copies.back()->clone()); q.mine = copies.back().get(); } tasks[t].push_back(q); }
    if (shared && r.coin()) source.reset();      // copies do not need their source
    if (cold) c.count("cold starts"); c.note("threads " + std::to_string(T) + (cold ? " cold" : "") + (shared ? " copies" : "") + "\n" + specStr(specs[0]));
    std::vector<std::string> got(T); std::vector<std::map<std::string, long> > counts(T); std::atomic<int> ready(0); std::atomic<long> overlap(0); std::atomic<int> busy(0);
    std::vector<std::thread> threads;
    for (int t = 0; t < T; ++t) threads.emplace_back([&, t]() {
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        for (auto& q : tasks[t]) { if (busy.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed); got[t] += work(q, counts[t]); busy.fetch_sub(1, std::memory_order_relaxed); }
    });
    for (auto& t : threads) t.join();
    long n = 0; size_t copy = 0;
    for (int t = 0; t < T; ++t) {
        std::string want; std::map<std::string, long> ignore; for (auto q : tasks[t]) { if (q.mine) q.mine = again[copy++].get(); want += work(q, ignore); n++; }
        if (want != got[t]) c.violation("result", "a thread among " + std::to_string(T) + " obtains other results than alone: " + diffText(want, got[t]), specStr(specs[0]));
        for (auto& k : counts[t]) c.count("op " + k.first, k.second); c.distinct(want);
    }
    c.count("threads", T); c.count("tasks", n); c.count("tasks started while another ran", overlap.load());
    if (c.wantSample()) c.sample("threads " + std::to_string(T) + ": " + got[0].substr(0, 1200));
    fl::fuzzylite::setLogging(true);
}
static Property make() { Property p("P31", 1600, 40000, run, "2-6 threads released together, each building, importing, copying, changing, processing, exporting and destroying engines of its own (sometimes copies of one engine) under ThreadSanitizer; then every thread's work is repeated alone and the results compared. The first case of each of 40 processes starts with the library unused.",
    {{"cold starts", 40}, {"threads", 5000}, {"tasks", 9000}, {"tasks started while another ran", 4000}, {"op process own copy", 300}, {"op import FLL", 100}, {"op FIS", 100}, {"op FCL", 100}, {"op factories", 100}, {"op dataset", 100}, {"op benchmark", 100}}, false, 200); p.cold = true; return p; }
Property vf::PROPERTY = make();
