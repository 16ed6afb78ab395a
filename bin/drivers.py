"""Drivers of the properties that need more than one program."""
import glob, json, os, re, shutil, subprocess, time

def p22(K, a, cfg, seed, t0):
    d = K.build("asan", {"P22": ["main.cpp"] + cfg["src"], "P22run-dummy": ["main.cpp", "P22run.cpp", "code.cpp", "state.cpp", "spec.cpp", "model.cpp"]})
    tb = time.time() - t0
    binp = os.path.join(d, "P22")
    work = os.path.join(K.BUILD, "work-P22-%d" % os.getpid())
    gen = os.path.join(work, "gen"); os.makedirs(gen)
    try:
        n = 160 if a.tier == "quick" else 3000
        K.ENV["VF_GEN"] = str(n)
        if a.only is not None:
            e = dict(K.ENV); e["VF_SCRATCH"] = work; e["VF_REPO"] = K.REPO; e["VF_ROOT"] = K.ROOT
            rc = subprocess.run([binp, "--seed", str(seed), "--only", str(a.only)], env=e).returncode
            if rc: return rc
            viol, summ = compile_run(K, d, work, gen)
            for v in viol: K.log(v["key"], v["msg"], v["detail"])
            return 1 if viol else 0
        info = json.loads(subprocess.run([binp, "--info"], env=K.ENV, stdout=subprocess.PIPE, text=True).stdout)
        viol, summ, hf, to = K.run_shards(binp, "P22", seed, a.tier, a.total, work, a.shards, 700 if a.tier == "quick" else 7200)
        v2, s2 = compile_run(K, d, work, gen)
        viol += v2; summ += s2
        cov = K.merge(summ, hf, info["rule"]); cov["build_s"] = round(tb, 1)
        rc = K.finish("P22", a.tier, seed, t0, cov, viol, assumptions=K.ASSUME)
        return K.conclude("P22", a, seed, t0, tb, cov, rc, info, to)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def compile_run(K, d, work, gen):
    ids = sorted(int(os.path.basename(f)[:-4]) for f in glob.glob(os.path.join(gen, "*.cpp")))
    viol = []
    cxx, flags = K.FLAVORS["asan"]
    def tu(k, ids):
        s = ""
        for i in ids:
            s += 'static fl::Engine* make_%d() {\n#line 1 "case_%d"\n%s\nreturn engine;\n}\n' % (i, i, open(os.path.join(gen, "%d.cpp" % i), errors="replace").read())
        s += "struct Entry { int id; fl::Engine* (*make)(); };\nextern Entry PART_%d[];\nEntry PART_%d[] = {%s {-1, 0}};\n" % (k, k, ", ".join("{%d, make_%d}" % (i, i) for i in ids) + ("," if ids else ""))
        open(os.path.join(work, "part%d.cpp" % k), "w").write(s)
    size = max(1, min(12, (len(ids) + 7) // 8))
    parts = [ids[i:i + size] for i in range(0, len(ids), size)]
    def ninja(parts):
        m = "#include \"fuzzylite/Headers.h\"\nstruct Entry { int id; fl::Engine* (*make)(); };\n" + "".join("extern Entry PART_%d[];\n" % k for k in range(len(parts)))
        m += "Entry ENTRIES[100000];\nint p22main(int, char**);\nint main(int c, char** v) { int n = 0; Entry* p[] = {%s}; for (unsigned i = 0; i < sizeof p / sizeof *p; ++i) for (Entry* e = p[i]; e->make; ++e) ENTRIES[n++] = *e; ENTRIES[n].make = 0; return p22main(c, v); }\n" % ", ".join("PART_%d" % k for k in range(len(parts)))
        open(os.path.join(work, "entries.cpp"), "w").write(m)
        w = ["ninja_required_version = 1.5", "rule cc\n command = %s %s -O0 -include-pch %s/o0.pch -c $in -o $out" % (cxx, flags.replace("-O1 ", ""), work),
             "rule pch\n command = %s %s -O0 -x c++-header $in -o $out" % (cxx, flags.replace("-O1 ", "")), "build %s/o0.pch: pch %s/all.h" % (work, d),
             "rule link\n command = %s %s $in -o $out -ldl -lpthread" % (cxx, flags)]
        objs = []
        for k in range(len(parts)):
            w.append("build %s/part%d.o: cc %s/part%d.cpp | %s/o0.pch" % (work, k, work, k, work)); objs.append("%s/part%d.o" % (work, k))
        w.append("build %s/entries.o: cc %s/entries.cpp | %s/o0.pch" % (work, work, work)); objs.append("%s/entries.o" % work)
        mo = os.path.join(work, "main_nomain.o")
        h = os.path.join(d, "h")
        w.append("rule nomain\n command = objcopy --redefine-sym main=vf_unused_main $in $out")
        w.append("build %s: nomain %s/main.cpp.o" % (mo, h))
        w.append("build %s/runner: link %s" % (work, " ".join(objs + [mo] + ["%s/%s.cpp.o" % (h, s) for s in ("P22run", "code", "state", "spec", "model")] + ["%s/libfl.a" % d])))
        open(os.path.join(work, "gen.ninja"), "w").write("\n".join(w) + "\n")
        return subprocess.run(["ninja", "-f", os.path.join(work, "gen.ninja"), "-k", "0", "-j", str(K.JOBS)], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    for k, p in enumerate(parts): tu(k, p)
    r = ninja(parts)
    for attempt in range(3):
        if r.returncode == 0: break
        bad = {}
        for m in re.finditer(r"^case_(\d+):(\d+):\d+: (?:fatal )?error: (.*)$", r.stdout, re.M):
            bad.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3)))
        if not bad: raise K.BuildError(r.stdout[-4000:])
        for i, (line, msg) in bad.items():
            code = open(os.path.join(gen, "%d.cpp" % i), errors="replace").read()
            viol.append({"type": "violation", "case": i, "key": "compile:" + re.sub(r"'[^']*'|[0-9.]+", "_", msg)[:60], "msg": "the exported code does not compile: %s in: %s" % (msg, code.split("\n")[line - 1] if line <= code.count("\n") + 1 else ""), "detail": code})
        for k in range(len(parts)):
            q = [i for i in parts[k] if i not in bad]
            if q != parts[k]: parts[k] = q; tu(k, q)
        r = ninja(parts)
    if r.returncode: raise K.BuildError(r.stdout[-4000:])
    out = os.path.join(work, "compiled.jsonl")
    e = dict(K.ENV); e["VF_SCRATCH"] = work
    p = subprocess.run([os.path.join(work, "runner"), gen, out], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
    summ = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: j = json.loads(l)
            except ValueError: continue
            (viol if j["type"] == "violation" else summ).append(j)
    if not summ:
        last = re.findall(r"^running (\d+)$", p.stderr, re.M)
        viol.append({"type": "violation", "case": int(last[-1]) if last else -1, "key": K.crash_signature(p.stderr), "msg": "the compiled export ended abnormally (%d)" % p.returncode, "detail": p.stderr[-6000:]})
    return viol, summ

def p36(K, a, cfg, seed, t0):
    """The same cases in two builds whose heap and stack hold different patterns, and some of them under memcheck."""
    K.FLAVORS["fill0"] = ("clang++", K.COMMON + " -O1 -ftrivial-auto-var-init=zero -DVF_FILL=0x00")
    K.FLAVORS["fill1"] = ("clang++", K.COMMON + " -O1 -ftrivial-auto-var-init=pattern -DVF_FILL=0xA5")
    dirs = {f: K.build(f, {"P36": ["main.cpp"] + cfg["src"]}) for f in ("fill0", "fill1", "vg")}
    tb = time.time() - t0
    work = os.path.join(K.BUILD, "work-P36-%d" % os.getpid()); os.makedirs(work)
    binp = {f: os.path.join(d, "P36") for f, d in dirs.items()}
    vg = ["valgrind", "-q", "--error-limit=no", "--undef-value-errors=yes", "--num-callers=14", "--leak-check=no"]
    def text(f, i):
        p = os.path.join(work, "text." + f)
        e = dict(K.ENV, VF_SCRATCH=work, VF_REPO=K.REPO, VF_ROOT=K.ROOT, VF_OBS_TEXT=p)
        subprocess.run([binp[f], "--seed", str(seed), "--only", str(i)], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return open(p, encoding="latin-1").read() if os.path.exists(p) else ""
    def differs(i):
        x, y = text("fill0", i).split("\n"), text("fill1", i).split("\n")
        for k in range(max(len(x), len(y))):
            p, q = (x[k] if k < len(x) else "(end)"), (y[k] if k < len(y) else "(end)")
            if p != q: return "'%s' with one pattern in memory, '%s' with another" % (p[:300], q[:300])
        return ""
    try:
        if a.only is not None:
            d = differs(a.only)
            if d: K.log("case %d: %s" % (a.only, d))
            e = dict(K.ENV, VF_SCRATCH=work, VF_REPO=K.REPO, VF_ROOT=K.ROOT)
            rc = subprocess.run(vg + [binp["vg"], "--seed", str(seed), "--only", str(a.only)], env=e).returncode
            return 1 if d or rc else 0
        info = json.loads(subprocess.run([binp["fill0"], "--info"], env=K.ENV, stdout=subprocess.PIPE, text=True).stdout)
        viol, summ, hf, to, obs = [], [], [], [], {}
        limit = 700 if a.tier == "quick" else 7200
        for f in ("fill0", "fill1"):
            o = os.path.join(work, "obs-" + f); os.makedirs(o); K.ENV["VF_OBS"] = o
            w = os.path.join(work, f); os.makedirs(w)
            v, s, h, t = K.run_shards(binp[f], "P36", seed, a.tier, a.total, w, a.shards, limit)
            viol += v; to += t
            if f == "fill0": summ += s; hf += h
            obs[f] = dict(l.split() for p in glob.glob(o + "/obs.*") for l in open(p) if len(l.split()) == 2)
        del K.ENV["VF_OBS"]
        both = sorted(set(obs["fill0"]) & set(obs["fill1"]), key=int)
        bad = [i for i in both if obs["fill0"][i] != obs["fill1"][i]]
        for i in bad[:6]: viol.append({"type": "violation", "case": int(i), "key": "pattern", "msg": "what is observed depends on uninitialised memory: " + differs(int(i)), "detail": ""})
        w = os.path.join(work, "vg"); os.makedirs(w)
        n = a.total or (480 if a.tier == "quick" else 12000)
        v, s, h, t = K.run_shards(binp["vg"], "P36", seed, a.tier, n, w, a.shards, limit, prefix=vg)
        for x in v:
            if x["key"] == "memcheck":
                for p in sorted(glob.glob(w + "/*.err")):
                    b = open(p, errors="replace").read()
                    if b.strip(): x["detail"] = b[:5000] + "\n" + x["detail"]; break
        viol += v; to += t
        mem = K.merge(s, [], "")["observed"]
        cov = K.merge(summ, hf, info["rule"]); cov["build_s"] = round(tb, 1)
        cov["observed"]["cases under memcheck"] = mem.get("cases under memcheck", 0)
        cov["observed"]["cases compared between memory patterns"] = len(both)
        rc = K.finish("P36", a.tier, seed, t0, cov, viol, assumptions=K.ASSUME)
        return K.conclude("P36", a, seed, t0, tb, cov, rc, info, to)
    finally:
        shutil.rmtree(work, ignore_errors=True)
