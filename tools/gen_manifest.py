#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/checks.json from one table (run from /verif)."""
import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
exec(open(os.path.join(H,"tools","checks_table.py")).read())
ids=[json.loads(l)["id"] for l in open(os.path.join(H,"properties.jsonl"))]
man={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"Every check is ./check <ID>; it rebuilds the harness and the crate from /repo's working tree (default and fma builds; the Python ones build the extension module) and explores exhaustively within the bounds in its evidence file. No hooks in /repo are needed: the crate is generic over the number type, which is where instrumentation is attached."}
cj={}
for i in ids:
    if i in CHECKS:
        c=CHECKS[i]
        man["checks"].append({"property":i,"quick_cmd":f"./check {i} --tier quick","thorough_cmd":f"./check {i} --tier thorough","technique":c["technique"],"level":c.get("level","model_checking"),"level_note":c["note"],"evidence_file":f"evidence/{i}.json"})
        cj[i]={k:v for k,v in c.items() if k not in("technique","note")}
    else:
        man["not_applicable"].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(man,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
json.dump(cj,open(os.path.join(H,"checks.json"),"w"),indent=1)
print(len(man["checks"]),"checks",len(man["not_applicable"]),"not applicable")
