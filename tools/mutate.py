#!/usr/bin/env python3
"""Mutation testing of the checks: plants small random changes in a scratch clone of /repo, keeps those that compile and pass the
repository's tests, and runs the checks relevant to the changed file until one reports it. Survivors are for a person to inspect.
usage: mutate.py OUT.jsonl N SEED [path regex]      (needs the time of N builds plus the checks; nothing is left behind but OUT.jsonl)"""
import json, os, random, re, subprocess, sys, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); pat = sys.argv[4] if len(sys.argv) > 4 else "."
T = "/tmp/mu-%d" % seed; W, B, C = T + "/tree", T + "/cmake", T + "/build"
MAP = [(r"activation/", "P05 P02 P03 P04 P19"), (r"defuzzifier/(Weighted|)Weighted", "P15 P33 P04"), (r"defuzzifier/", "P14 P04 P02"), (r"factory/", "P28 P03 P26"),
 (r"hedge/", "P11 P07"), (r"imex/Fll", "P19 P37 P01 P34"), (r"imex/Fis", "P20 P37 P01"), (r"imex/Fcl", "P21 P37 P01"), (r"imex/Cpp", "P22"), (r"imex/Java", "P23"),
 (r"imex/Fld", "P24 P35"), (r"imex/RS", "P25"), (r"imex/", "P34 P19 P24 P35"), (r"norm/", "P09 P10 P33"), (r"rule/Ante", "P07 P06 P02 P18 P04"), (r"rule/Cons", "P08 P06 P02 P18 P04"),
 (r"rule/Expr", "P07 P06 P08"), (r"rule/RuleBlock", "P05 P03 P18 P34 P04 P06"), (r"rule/", "P05 P06 P07 P18 P03 P04"), (r"term/Discrete", "P39 P12 P03 P02"), (r"term/Function", "P26 P02 P18 P03"), (r"term/(Agg|Act)", "P10 P08 P15 P18 P03"),
 (r"term/", "P12 P13 P02 P19 P33"), (r"variable/Out", "P16 P18 P03 P04 P30"), (r"variable/", "P17 P03 P18 P16"), (r"Engine", "P03 P32 P33 P18 P16 P04 P30"), (r"Benchmark", "P29"), (r"Console", "P35 P38"), (r"main", "P35"),
 (r"Operation|Op\.h", "P27 P38 P02"), (r"Exception", "P34"), (r"fuzzylite\.", "P38 P27"), (r"Complexity", "P03 P18")]
ALL = ["P%02d" % i for i in range(1, 42)]
OPS = [(r"<=", ["<", ">="]), (r">=", [">", "<="]), (r"(?<![<\-=])<(?![<=])", ["<=", ">"]), (r"(?<![->=])>(?![>=])", [">=", "<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]),
 (r"\bnot ", [""]), (r"(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]), (r"(?<=[\w)\]]) \* (?=[\w(])", [" / ", " + "]), (r"(?<=[\w)\]]) / (?=[\w(])", [" * "]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
 (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b0\.5\b", ["0.25", "1.0"]), (r"\b2\.0\b", ["1.0"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
 (r"getMinimum", ["getMaximum"]), (r"getMaximum", ["getMinimum"]), (r"\binf\b", ["nan"]), (r"\bnan\b", ["inf"]), (r"\bisLt\b", ["isLE"]), (r"\bisLE\b", ["isLt"]), (r"\bisGt\b", ["isGE"]), (r"\bisGE\b", ["isGt"]), (r"isEq", ["isLE", "isGE"]), (r"\bOp::min\b", ["Op::max"]), (r"\bOp::max\b", ["Op::min"]),
 (r"\.empty\(\)", [".size() == 1"]), (r"\.begin\(\)", [".end()"]), (r"getConjunction", ["getDisjunction"]), (r"inputVariables", ["outputVariables"]), (r"numberOfInputVariables", ["numberOfOutputVariables"]), (r"numberOfOutputVariables", ["numberOfInputVariables"]), (r"\.size\(\)(?! ==)", [".size() - 1", ".size() + 1"]),
 (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]), (r"push_back\(", ["push_back(0), (void)("]), (r"\"([^\"]+)\"", ['""', "SWAP"]), (r"->clone\(\)", [""]), (r"getHeight\(\)", ["1.0"]), (r"getActivationDegree\(\)", ["1.0"]), (r"isEnabled\(\)", ["isEnabled() or true"]), (r"isLoaded\(\)", ["isLoaded() or true"])]
DEL = re.compile(r"^\s+[\w:>.\-\[\]*() ]+(\([^;{}]*\)|\s*[-+*/]?= [^;{}]+);\s*$")
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def candidates(lines):
    res = []; com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or "FL_DBG" in s or "FL_LOG" in s or "ex <<" in s or "throw Exception" in s or "include" in s or "template" in s or "FL_DEBUG" in s: continue
        for p, rs in OPS:
            for m in re.finditer(p, l):
                for r in rs:
                    if r == "SWAP": r = '"%sx"' % m.group(1)
                    res.append((i, l[:m.start()] + r + l[m.end():], "op"))
        if DEL.match(l) and not re.match(r"^\s+(const |return|[\w:]+ [\w]+ = |[\w:]+\* )", l): res += [(i, "\n", "del")] * 3
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{|)\s*$", l)
        if m: res.append((i, l.replace("if (", "if (not (", 1).replace(m.group(2), m.group(2) + ")", 1), "neg")); res.append((i, l.replace("if (", "if (true or (", 1).replace(m.group(2), m.group(2) + ")", 1), "true")); res.append((i, l.replace("if (", "if (false and (", 1).replace(m.group(2), m.group(2) + ")", 1), "false"))
    return res
def main():
    R = random.Random(seed); shutil.rmtree(T, ignore_errors=True); os.makedirs(T); print(sh("git", "clone", "-q", "/repo", W).stdout[-60:])
    sh("cmake", "-S", W, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_FLAGS=-Wno-error -O1 -g0", "-DFL_BUILD_TESTS=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON")
    r = sh("ninja", "-C", B)
    if r.returncode: print(r.stdout[-2000:]); return
    files = [f for f in sh("git", "-C", W, "ls-files").stdout.split() if re.match(r"(src|fuzzylite)/.*\.(cpp|h)$", f) and re.search(pat, f)]
    cand = []
    for f in files:
        ls = open(W + "/" + f).read().split("\n"); cand += [(f,) + c for c in candidates([x + "\n" for x in ls])]
    R.shuffle(cand); print(len(files), "files", len(cand), "candidates", flush=True)
    done = 0; seen = set(); log = open(out, "a")
    for f, i, new, kind in cand:
        if done >= n: break
        if (f, i) in seen: continue
        p = W + "/" + f; src = open(p).read(); ls = src.split("\n"); old = ls[i]; ls[i] = new.rstrip("\n"); open(p, "w").write("\n".join(ls))
        try:
            rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind); t0 = time.time()
            r = sh("timeout", "900", "ninja", "-C", B)
            if r.returncode: continue
            try: r = subprocess.run(["timeout", "60"] + [B + "/bin/fuzzylite-tests"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=W)
            except Exception as e: print(e); return
            if r.returncode: rec["by"] = "tests"; log.write(json.dumps(rec) + "\n"); log.flush(); continue
            seen.add((f, i)); done += 1
            checks = next((c.split() for q, c in MAP if re.search(q, f)), ["P03", "P04"]); rec["by"] = None; rec["ran"] = {}
            for c in checks:
                t = time.time(); r = sh("timeout", "900", sys.executable, ROOT + "/bin/check.py", c, env=dict(os.environ, VF_REPO=W, VF_BUILD=C), cwd=ROOT); rec["ran"][c] = [r.returncode, int(time.time() - t)]
                if r.returncode == 1: rec["by"] = c; rec["key"] = re.findall(r"key=(\S+)", r.stdout)[:2]; break
                if r.returncode != 0: rec["odd"] = r.stdout[-300:]
            log.write(json.dumps(rec) + "\n"); log.flush()
        finally:
            open(p, "w").write(src)
try: main()
finally:
    shutil.rmtree(T, ignore_errors=True)
