#!/usr/bin/env python3
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
claimed=json.load(open(os.path.join(root,"tools/claimed.json")))
checks=[];na=[]
for p in props:
    c=claimed.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"],reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"],quick_cmd=f"python3 bin/check.py {p['id']}",thorough_cmd=f"python3 bin/check.py {p['id']}",
        technique=c["technique"],level="model_checking",level_note=c["note"]))
m=dict(version=1,setup_cmd="python3 bin/setup.py",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
