#!/usr/bin/env python3
import json, os, sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+"/bin")
import props
ids=[json.loads(l)["id"] for l in open(R+"/properties.jsonl")]
checks=[]
for i in ids:
    if i not in props.PROPS: continue
    c=props.PROPS[i]
    checks.append({"property":i,"quick_cmd":"python3 bin/check.py %s --tier quick"%i,"thorough_cmd":"python3 bin/check.py %s --tier thorough"%i,
      "evidence_file":"evidence/%s.json"%i,"technique":c.get("technique","runtime monitor (reference oracle) over generated workloads under ASan+UBSan"),
      "level":"exploration","level_note":c.get("note","Seeded generated executions judged by an independent oracle; covers what was executed, assumes the oracle's definitions.")})
na=[{"property":i,"reason":props.NOT_APPLICABLE.get(i,"no check built yet")} for i in ids if i not in props.PROPS]
m={"version":1,"setup_cmd":"python3 bin/setup.py","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: the public API exposes every observed event. Known findings: known_findings.json. Each check rebuilds /repo's working tree with clang sanitizers into build/ (git-ignored)."}
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
