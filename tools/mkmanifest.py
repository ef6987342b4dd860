#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed properties.
import json, os
here=os.path.dirname(os.path.abspath(__file__))
TECH="deterministic simulation: seeded schedules and fault injection, checked against a reference model"
NOTE={}
exec(open(os.path.join(here,"claims.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
checks=[]
for i in props:
    if i not in NOTE: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
      evidence_file=f"evidence/{i}.json",technique=TECH,level="exploration",level_note=NOTE[i]))
na=[dict(property=i,reason=NA.get(i,"check not built yet")) for i in props if i not in NOTE]
m=dict(version=1,setup_cmd="./build.sh",
 hooks=dict(guard="cfg goko_sim (rustc --cfg goko_sim)",enable="RUSTFLAGS='--cfg goko_sim' set by /verif/env.sh when building /verif/sim",source_commits=HOOKS),
 checks=checks,not_applicable=na,notes="see DESIGN.md")
open(os.path.join(here,"..","MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),"claimed",len(na),"not")
