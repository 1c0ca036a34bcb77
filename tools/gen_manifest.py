#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
T={ # id: (level, technique, note)
"C01":("exploration","stateless bounded-exhaustive exploration of the real reader and writer over a choice tree of values","every value tree within k deviations (k=2 shape, k=1 all fields, boundary alternatives) of every format version; larger deviations are not covered"),
"C02":("exploration","bounded-exhaustive exploration of the real writer against an independent reference encoder of the offset rules","as C01; the reference encoder and schema are trusted"),
"C03":("exploration","bounded-exhaustive exploration of the real reader over value trees x block placements produced by a reference encoder","nine placement policies, value trees within the deviation bound"),
}
try:
    exec(open(os.path.join(root,"tools","manifest_table.py")).read())
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        l,t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet") if 'NA' in globals() else "check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"One Rust harness crate (harness/) explores the real library through its public API; no hooks in /repo are needed. See DESIGN.md."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
