#!/usr/bin/env python3
"""Reverts each repair of /repo in a scratch worktree and runs the property's check on it: the check must report the defect again.
usage: reverts.py [commit...]"""
import json, os, re, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [re.match(r"fixed: property=(\S+) (\S+) (.*)", f).groups() for f in json.load(open(ROOT + "/known_findings.json"))["fixed"]]
w, b = "/tmp/rv-tree", "/tmp/rv-build"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh("git", "-C", "/repo", "worktree", "remove", "--force", w); sh("git", "-C", "/repo", "worktree", "prune")
print(sh("git", "-C", "/repo", "worktree", "add", "--detach", w, "HEAD").stdout[-80:])
try:
    for p, c, what in fixed:
        if len(sys.argv) > 1 and c not in sys.argv[1:]: continue
        sh("git", "-C", w, "checkout", "-q", "-f", "HEAD"); r = sh("git", "-C", w, "revert", "-n", c)
        if r.returncode: print(c, p, "CONFLICT", r.stdout.strip().split("\n")[-1][:100], flush=True); sh("git", "-C", w, "revert", "--abort"); sh("git", "-C", w, "reset", "-q", "--hard"); continue
        r = sh(sys.executable, ROOT + "/bin/check.py", p, env=dict(os.environ, VF_REPO=w, VF_BUILD=b), cwd=ROOT)
        k = re.findall(r"key=(\S+)", r.stdout)
        print(c, p, "detected" if r.returncode == 1 else "MISSED exit %d" % r.returncode, " ".join(k[:3]), "|", what[:70], flush=True)
        sh("git", "-C", w, "revert", "--abort"); sh("git", "-C", w, "reset", "-q", "--hard")
finally:
    sh("git", "-C", "/repo", "worktree", "remove", "--force", w); shutil.rmtree(b, ignore_errors=True)
