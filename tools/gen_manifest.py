#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH="exhaustive bounded enumeration of inputs on the real code against a reference model"
CH={
}
def c(i,level,technique,note): CH[i]=dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",technique=technique,level=level,level_note=note)
exec(open(os.path.join(R,"tools","checks.py")).read())
ids=[json.loads(l)["id"] for l in open(os.path.join(R,"properties.jsonl"))]
m=dict(version=1,setup_cmd="./setup.sh",checks=[CH[i] for i in ids if i in CH],
  not_applicable=[dict(property=i,reason=NA.get(i,"check under construction")) for i in ids if i not in CH])
if HOOKS: m["hooks"]=HOOKS
json.dump(m,open(os.path.join(R,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",[x["property"] for x in m["not_applicable"]])
