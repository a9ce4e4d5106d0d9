#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the lists below.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the SSA form (trace partitioning, exact symbolic domain) against a contract"
WP="whole-program dataflow rule over the SSA form"
NOTE="Sound for all inputs relative to the documented behaviour of the library functions the code calls (engine/models.go) and Go semantics as represented by go/ssa; anything the analysis cannot decide is reported as a violation."
claims={}
def c(ids,tech,note=NOTE):
    for i in ids.split(): claims[i]=(tech,note)
exec(open(os.path.join(V,"tools/claims.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
na=[]
for p in props:
    if p not in claims:
        na.append({"property":p,"reason":reasons.get(p,"not decided yet: the check is under construction")})
for p in claims: assert p in props,p
m={"version":1,"setup_cmd":"bash build.sh","checks":[{"property":p,"quick_cmd":"bash run.sh "+p,"thorough_cmd":"bash run.sh "+p,"technique":claims[p][0],"level":"other","level_note":claims[p][1]} for p in props if p in claims],"not_applicable":na,
 "notes":"Every check loads, type-checks and analyses /repo's current source from scratch; nothing of /repo is executed. See DESIGN.md."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
