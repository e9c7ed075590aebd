#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg=json.load(open(root+"/checks.json"))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
NA=json.load(open(root+"/tools/not_applicable.json")) if os.path.exists(root+"/tools/not_applicable.json") else {}
checks=[];na=[]
TECH="contract-based deductive verification of the real Go code (gvc: weakest preconditions over the current source, z3/cvc5)"
NOTE="Every obligation generated from /repo's current source for the functions under contract is discharged for all inputs and iterations; trusted: gvc's translation and axioms, the solvers, and the external contracts listed in the evidence. A bounded harness runs the real code beside the proof to find failing inputs; it is never counted as proved."
for p in props:
    c=cfg.get(p["id"])
    if not c:
        na.append({"property":p["id"],"reason":NA.get(p["id"],"no check built yet")})
        continue
    cmd="./check "+p["id"]
    checks.append({"property":p["id"],"quick_cmd":cmd,"thorough_cmd":cmd+" thorough","technique":c.get("technique",TECH),"level":c["level"],"level_note":c.get("note",NOTE)})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
