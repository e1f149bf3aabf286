#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; CLAIMED lists the properties with a working check."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
exec(open(V+'/tools/claimed.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}",
          "technique":"deductive verification of function contracts over the SSA form of the Go source (govc), obligations discharged by z3/cvc5",
          "level":"proof","level_note":CLAIMED[i]+" "+COMMON})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"bash check.sh --build","checks":checks,"not_applicable":na,
  "notes":"Contracts are in govc/specs_*.go; see DESIGN.md. No hooks are needed in /repo."},open(V+'/MANIFEST.json','w'),indent=1)
