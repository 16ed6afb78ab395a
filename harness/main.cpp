// Shard driver: runs cases start, start+step, ... < total of the linked property.
#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#endif
#endif
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif

#ifdef VF_COV
extern "C" int __llvm_profile_write_file(void);
#endif
namespace vf {
double MACHEPS = 1e-6;
static char* progress = nullptr;  // mmap: [0..31] case index text, [64..] note
static const size_t PROG = 1 << 16;
std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
std::string jsonEscape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static FILE* out = nullptr;
void Ctx::violation(const std::string& key, const std::string& msg, const std::string& detail) {
    if (dry) return;
    if (key.compare(0, 3, "kf:")) ++violationCount;
    if (perKey[key]++ >= 3) return;
    violations.push_back(Violation{key, msg, detail});
    if (verbose) fprintf(stderr, "VIOLATION-DETAIL key=%s case=%ld\n%s\n%s\n", key.c_str(), caseIdx, msg.c_str(), detail.c_str());
    if (out) {
        fprintf(out, "{\"type\":\"violation\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"detail\":\"%s\"}\n", caseIdx,
                jsonEscape(key).c_str(), jsonEscape(msg.substr(0, 4000)).c_str(), jsonEscape(detail.substr(0, 20000)).c_str());
        fflush(out);
    }
}
void Ctx::note(const std::string& s) {
    if (verbose) fprintf(stderr, "note: %s\n", s.c_str());
    if (!progress) return;
    size_t n = std::min(s.size(), PROG - 65);
    memcpy(progress + 64, s.data(), n);
    progress[64 + n] = 0;
}
std::string readFile(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
void writeFile(const std::string& p, const std::string& t) { std::ofstream f(p.c_str(), std::ios::binary); f << t; }
static std::string scratch;
std::string scratchDir() {
    if (scratch.empty()) {
        const char* base = getenv("VF_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/vfXXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(3); }
        scratch = b.data();
    }
    return scratch;
}
}
using namespace vf;

static void onProf(int) {
    static const char m[] = "VF-HANG: CPU limit of one case exceeded\n";
    if (write(2, m, sizeof m - 1)) {}
    abort();
}
static void armTimer(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr);
}
static size_t liveBytes() {
#ifdef VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static void runOne(Ctx& c, long i) {
    c.caseIdx = i;
    Rng r(mix(c.seed * 1000003ULL + hashStr(PROPERTY.id)) ^ mix((uint64_t) i * 2654435761ULL + 17));
    fuzzylite::fuzzylite::setDecimals(3);
    fuzzylite::fuzzylite::setMachEps(1e-6); MACHEPS = 1e-6;
    try { PROPERTY.run(c, r, i); }
    catch (std::exception& e) { c.violation("unexpected-exception", std::string("exception escaped from an operation that must not fail: ") + e.what()); }
}

int main(int argc, char** argv) {
    long start = 0, step = 1, total = -1, only = -1; std::string outp, prog; Ctx c; bool thorough = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") c.seed = std::stoull(nx());
        else if (a == "--start") start = std::stol(nx());
        else if (a == "--step") step = std::stol(nx());
        else if (a == "--total") total = std::stol(nx());
        else if (a == "--only") only = std::stol(nx());
        else if (a == "--out") outp = nx();
        else if (a == "--progress") prog = nx();
        else if (a == "--thorough") thorough = true;
        else if (a == "--info") {
            printf("{\"quick\":%ld,\"thorough\":%ld,\"rule\":\"%s\",\"require\":{", PROPERTY.quick, PROPERTY.thorough, jsonEscape(PROPERTY.rule).c_str());
            for (size_t k = 0; k < PROPERTY.require.size(); ++k) printf("%s\"%s\":%ld", k ? "," : "", PROPERTY.require[k].first.c_str(), PROPERTY.require[k].second);
            printf("}}\n"); return 0;
        }
    }
    c.prop = PROPERTY.id;
    if (total < 0) total = thorough ? PROPERTY.thorough : PROPERTY.quick;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, PROG)) {}
        progress = (char*) mmap(nullptr, PROG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    if (!outp.empty()) out = fopen(outp.c_str(), "a");
    signal(SIGPROF, onProf);
    if (!PROPERTY.cold) fuzzylite::FactoryManager::instance();
    if (PROPERTY.init) PROPERTY.init(c);
    if (only >= 0) { c.verbose = true; start = only; total = only + 1; step = 1; }
    long cases = 0, leaks = 0;
    for (long i = start; i < total; i += step) {
        if (progress) { snprintf(progress, 32, "%ld", i); progress[64] = 0; }
        armTimer(PROPERTY.cpuLimit);
        size_t b0 = liveBytes();
        long v0 = c.violationCount;
        runOne(c, i);
        ++cases;
        size_t b1 = liveBytes();
        if (PROPERTY.leakCheck && b1 > b0 && c.violationCount == v0) {
            // growth may be caches or observations: confirm by running the same case again, twice
            c.dry = true; bool leak = true; size_t x0 = liveBytes(), x1 = 0;
            for (int k = 0; k < 3 && leak; ++k) { x0 = liveBytes(); runOne(c, i); x1 = liveBytes(); if (x1 <= x0) leak = false; }
            c.dry = false;
            if (leak) {
                ++leaks;
                std::string d;
                c.violation("leak", "every execution of this case leaves " + std::to_string((long) (x1 - x0)) + " more bytes allocated", progress ? std::string(progress + 64) : "");
#ifdef VF_ASAN
                if (c.verbose) __lsan_do_recoverable_leak_check();
#endif
            }
        }
        if (c.violationCount > 60) break;
    }
    armTimer(0);
    if (out) {
        fprintf(out, "{\"type\":\"summary\",\"cases\":%ld,\"counters\":{", cases);
        bool f = true;
        for (auto& k : c.counters) { fprintf(out, "%s\"%s\":%ld", f ? "" : ",", jsonEscape(k.first).c_str(), k.second); f = false; }
        fprintf(out, "},\"samples\":[");
        for (size_t k = 0; k < c.samples.size(); ++k) fprintf(out, "%s\"%s\"", k ? "," : "", jsonEscape(c.samples[k]).c_str());
        fprintf(out, "],\"violations\":%ld}\n", c.violationCount);
        fclose(out);
        FILE* h = fopen((outp + ".hashes").c_str(), "ab");
        for (uint64_t x : c.distinctSet) fwrite(&x, 8, 1, h);
        fclose(h);
    }
    if (!scratch.empty()) { std::string cmd = "rm -rf '" + scratch + "'"; if (system(cmd.c_str())) {} }
    if (only >= 0) fprintf(stderr, "case %ld: %ld violation(s)\n", only, c.violationCount);
    fflush(stdout);
#ifdef VF_COV
    __llvm_profile_write_file();
#endif
    _exit(c.violationCount ? 1 : 0);
}
