#!/usr/bin/env python3
"""Builds fuzzylite from /repo's working tree under instrumentation, runs one property's monitors over
generated workloads in parallel shards, and writes the verdict and the evidence.
usage: check.py PROPERTY [--tier quick|thorough] [--only CASE] [--total N]
exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not decide (build failure, vacuous run)."""
import argparse, fcntl, glob, json, os, re, struct, subprocess, sys, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))
JOBS = os.cpu_count() or 8
sys.path.insert(0, os.path.join(ROOT, "bin"))

COMMON = "-std=c++11 -DFL_BACKTRACE -I%s -g1 -fno-omit-frame-pointer -Wno-everything" % REPO
FLAVORS = {
    "asan": ("clang++", COMMON + " -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-sanitize=vptr"),
    "tsan": ("clang++", COMMON + " -O1 -fsanitize=thread"),
    "vg": ("clang++", COMMON + " -O1 -g -DVF_VALGRIND -DVF_NO_SAN"),
    "plain": ("clang++", COMMON + " -O1"),
}
if os.environ.get("VF_COV"):       # tools/coverage.sh: line coverage of the library under the workloads instead of sanitizers
    FLAVORS["asan"] = ("clang++", COMMON + " -O0 -DVF_NO_SAN -DVF_COV -fprofile-instr-generate -fcoverage-mapping")
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:detect_container_overflow=1:handle_abort=1:max_allocation_size_mb=4096:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LC_ALL": "C",
})

def log(*a):
    print(*a, flush=True)

class BuildError(Exception):
    pass

def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    return [f for f in s if os.path.relpath(f, REPO) != "src/main.cpp"]

def build(flavor, binaries, extra_defs=""):
    """binaries: {name: [sources in harness]}; returns dir with the binaries."""
    cxx, flags = FLAVORS[flavor]
    flags += " " + extra_defs
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hdir = os.path.join(ROOT, "harness")
    n = ["ninja_required_version = 1.5", "flags = " + flags, "cxx = " + cxx,
         "rule pch\n command = $cxx $flags -MMD -MF $out.d -x c++-header $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule cc\n command = $cxx $flags -include-pch $pch -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
         "rule ar\n command = rm -f $out && ar rcs $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in",
         "rule link\n command = $cxx $flags @$out.rsp -o $out -ldl -lpthread\n rspfile = $out.rsp\n rspfile_content = $in"]
    allh = os.path.join(d, "all.h")
    text = '#include "fuzzylite/Headers.h"\n#include <cmath>\n#include <sstream>\n#include <functional>\n#include <unordered_set>\n#include <iostream>\n#include <fstream>\n#include <algorithm>\n'
    if not os.path.exists(allh) or open(allh).read() != text:
        open(allh, "w").write(text)
    n.append("build %s/all.pch: pch %s" % (d, allh))
    n.append("pch = %s/all.pch" % d)
    objs = []
    for f in lib_sources():
        o = os.path.join(d, "lib", os.path.relpath(f, REPO).replace("/", "_") + ".o")
        objs.append(o)
        n.append("build %s: cc %s | %s/all.pch" % (o, f, d))
    lib = os.path.join(d, "libfl.a")
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    seen = set()
    targets = []
    for name, srcs in binaries.items():
        os_ = []
        for s in srcs:
            p = os.path.join(REPO, s[1:]) if s[0] == "@" else os.path.join(hdir, s)
            o = os.path.join(d, "h", s.replace("@", "repo-").replace("/", "-") + ".o")
            os_.append(o)
            if o not in seen:
                seen.add(o)
                n.append("build %s: cc %s | %s/all.pch" % (o, p, d))
        b = os.path.join(d, name)
        n.append("build %s: link %s %s" % (b, " ".join(os_), lib))
        targets.append(b)
    nf = os.path.join(d, "build-%s.ninja" % "-".join(sorted(binaries))[:60])
    open(nf, "w").write("\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-j", str(JOBS)] + targets, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    lock.close()
    if r.returncode:
        raise BuildError("\n".join(l for l in r.stdout.split("\n") if not re.match(r"^\[\d+/\d+\]|^clang\+\+ ", l))[-6000:])
    return d

def load_known():
    known, p = [], os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        known = json.load(open(p)).get("findings", [])
    return known

def match_known(known, prop, key, msg, detail):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["key"], key) and ("match" not in k or re.search(k["match"], msg + "\n" + detail, re.S)):
            return k
    return None

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")
def crash_signature(err):
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    m2 = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m2 and (not m or err.index("runtime error") < err.index("AddressSanitizer")):
        kind = "ub:" + re.sub(r"[-+]?[0-9][0-9.e+-]*|0x[0-9a-f]+|-?nan|-?inf", "N", m2.group(3))[:90]
    if "VF-HANG" in err:
        kind = "hang"
    if "ThreadSanitizer" in err:
        mt = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
        kind = "tsan:" + (mt.group(1).strip() if mt else "report")
    where = ""
    for f in FRAME.finditer(err):
        if f.group(2).startswith(REPO + "/"):
            where = re.sub(r"\(.*", "", f.group(1)) 
            break
    return kind + ("@" + where if where else "")

def run_shards(binp, prop, seed, tier, total, work, nshards, timeout, limit_crashes=4, prefix=None):
    """runs the shards; a shard that crashes is resumed after the crashing case. returns (violations, summaries, hash files, timed_out)"""
    procs, violations, summaries, timed_out = {}, [], [], []
    outs = []
    def start(sh, first):
        out = os.path.join(work, "out%d.%d" % (sh, len(outs)))
        outs.append(out)
        prog = os.path.join(work, "prog%d" % sh)
        err = open(out + ".err", "wb")
        cmd = (prefix or []) + [binp, "--seed", str(seed), "--start", str(first), "--step", str(nshards), "--out", out, "--progress", prog]
        if tier == "thorough": cmd.append("--thorough")
        if total: cmd += ["--total", str(total)]
        e = dict(ENV); e["VF_SCRATCH"] = work; e["VF_REPO"] = REPO; e["VF_ROOT"] = ROOT
        procs[sh] = (subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=work), out, prog, time.time())
    crashes = {}
    for s in range(nshards):
        start(s, s)
    while procs:
        time.sleep(0.02)
        for sh in list(procs):
            pr, out, prog, t0 = procs[sh]
            rc = pr.poll()
            if rc is None:
                if time.time() - t0 > timeout:
                    pr.kill(); pr.wait()
                    timed_out.append(sh)
                    del procs[sh]
                continue
            del procs[sh]
            err = open(out + ".err", "rb").read().decode("utf8", "replace")
            done = False
            if os.path.exists(out):
                for l in open(out, errors="replace"):
                    try: j = json.loads(l)
                    except ValueError: continue
                    if j["type"] == "violation": violations.append(j)
                    else:
                        summaries.append(j); done = True
            if not done:
                pb = open(prog, "rb").read() if os.path.exists(prog) else b""
                head = pb[:32].split(b"\0")[0].decode() or "-1"
                note = pb[64:].split(b"\0")[0].decode("utf8", "replace")
                if not err.strip() and rc == -9:
                    timed_out.append(sh); continue    # killed from outside (memory): no verdict
                key = crash_signature(err) if rc != 0 else "no-summary"
                violations.append({"type": "violation", "case": int(head), "key": key, "msg": "the process ended abnormally (%d) while running this case" % rc,
                                   "detail": "executing: " + note + "\n" + err[-6000:]})
                crashes[sh] = crashes.get(sh, 0) + 1
                if crashes[sh] < limit_crashes and int(head) >= 0:
                    start(sh, int(head) + nshards)
    return violations, summaries, [o + ".hashes" for o in outs], timed_out

def finish(prop, tier, seed, t0, cov, violations, wall=None, assumptions=None, repro=None):
    """known-findings matching, replay files, evidence, verdict line. returns the exit status."""
    known = load_known()
    new, old = [], {}
    for v in violations:
        k = match_known(known, prop, v["key"], v.get("msg", ""), v.get("detail", ""))
        if k: old.setdefault(k["id"], (k, 0)); old[k["id"]] = (k, old[k["id"]][1] + 1)
        else: new.append(v)
    ev = os.path.join(ROOT, "evidence"); os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(ev, "replays", prop + "-*.json")): os.unlink(f)
    lines, seen = [], {}
    for v in new:
        if seen.get(v["key"], 0) >= 2: continue
        seen[v["key"]] = seen.get(v["key"], 0) + 1
        path = os.path.join("evidence", "replays", "%s-%d.json" % (prop, len(lines) + 1))
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": v.get("case", -1), "key": v["key"], "message": v.get("msg", ""), "detail": v.get("detail", ""),
                   "reproduce": repro or ("cd /verif && VERIF_SEED=%d python3 bin/check.py %s --only %s" % (seed, prop, v.get("case", -1)))}, open(os.path.join(ROOT, path), "w"), indent=1)
        lines.append((path, v))
        if len(lines) >= 12: break
    for k in known:      # listed findings are announced on every run, seen in this run or not
        if k["property"] == prop:
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = dict(cov)
    cov["known_findings_observed"] = {i: n for i, (k, n) in old.items()}
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if assumptions: e["assumptions"] = assumptions
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for path, v in lines:
        log("  case %s key=%s: %s" % (v.get("case"), v["key"], v.get("msg", "")[:500].replace("\n", " | ")))
    if lines:
        log("VIOLATION property=%s replay=%s" % (prop, lines[0][0]))
        return 1
    return 0

def merge(summaries, hashfiles, rule):
    cnt, samples, cases = {}, [], 0
    for s in summaries:
        cases += s["cases"]
        for k, v in s["counters"].items(): cnt[k] = cnt.get(k, 0) + v
        samples += s["samples"]
    hs = set()
    for f in hashfiles:
        if os.path.exists(f):
            b = open(f, "rb").read()
            hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return {"evaluations": cases, "distinct_nontrivial": len(hs), "rule": rule, "samples": samples[:6], "observed": dict(sorted(cnt.items()))}

ASSUME = ["the oracle's definitions (harness/*.hpp) state the intended semantics", "the instrumented clang build behaves as the shipped build"]

def conclude(prop, a, seed, t0, tb, cov, rc, info, timed_out):
    if rc == 0 and not a.total:
        if timed_out:
            log("INCONCLUSIVE property=%s: shards %s ran out of time or memory" % (prop, timed_out)); rc = 2
        for k, v in info["require"].items():
            if cov["observed"].get(k, 0) < v:
                log("INCONCLUSIVE property=%s: observed %s=%d < %d" % (prop, k, cov["observed"].get(k, 0), v)); rc = 2
    log("%s %s seed=%d: %d cases, %d distinct, exit %d, %.1fs (build %.1fs) %s" % (prop, a.tier, seed, cov["evaluations"], cov["distinct_nontrivial"], rc, time.time() - t0, tb, json.dumps(cov["observed"])[:600]))
    return rc

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", type=int); ap.add_argument("--total", type=int, default=0); ap.add_argument("--shards", type=int, default=JOBS)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    import props
    cfg = props.PROPS[a.prop]
    try:
        if "driver" in cfg:
            return cfg["driver"](sys.modules["__main__"], a, cfg, seed, t0)
        flavor = cfg.get("flavor", "asan")
        d = build(flavor, dict({a.prop: ["main.cpp"] + cfg["src"]}, **cfg.get("extra", {})))
        tb = time.time() - t0
        binp = os.path.join(d, a.prop)
        work = os.path.join(BUILD, "work-" + a.prop + "-" + str(os.getpid()))
        os.makedirs(work)
        try:
            if a.only is not None:
                e = dict(ENV); e["VF_SCRATCH"] = work; e["VF_REPO"] = REPO; e["VF_ROOT"] = ROOT
                return subprocess.run([binp, "--seed", str(seed), "--only", str(a.only)] + (["--thorough"] if a.tier == "thorough" else []), env=e).returncode
            info = json.loads(subprocess.run([binp, "--info"], env=ENV, stdout=subprocess.PIPE, text=True).stdout)
            limit = 700 if a.tier == "quick" else 7200
            viol, summ, hf, to = run_shards(binp, a.prop, seed, a.tier, a.total, work, cfg.get("shards", a.shards), limit)
            cov = merge(summ, hf, info["rule"])
            cov["build_s"] = round(tb, 1)
            rc = finish(a.prop, a.tier, seed, t0, cov, viol, assumptions=ASSUME)
            return conclude(a.prop, a, seed, t0, tb, cov, rc, info, to)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    except BuildError as e:
        log("BUILD FAILED\n" + str(e)); return 2

if __name__ == "__main__":
    sys.exit(main())
