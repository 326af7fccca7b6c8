#!/usr/bin/env python3
# regenerates MANIFEST.json from the table below
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T='contract-based deductive verification: contracts on the real Go functions, VCs generated from go/ssa by govc, discharged by z3/cvc5; failed obligations replayed by a harness on the running code'
claims={}
exec(open(here+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claims:
        lv,note=claims[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"env VERIF_TIER=thorough bash check.sh {i}","technique":T,"level":lv,"level_note":note})
    else:
        na.append({"property":i,"reason":notyet.get(i,"no check yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open(here+'/MANIFEST.json','w'),indent=1)
