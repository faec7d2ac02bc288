#!/usr/bin/env python3
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
CLAIM={
 "C20":("order-taint dataflow over SSA","Sound for the listed sources of nondeterminism within repo code; library behaviour (fmt map printing, go-toposort) trusted."),
 "C21":("phase-cloned points-to analysis over SSA","Flow-insensitive may-write analysis: over-approximates writes to package state; trusted: external packages listed in assumptions."),
}
CLAIM.update(json.load(open(here+"/scripts/claims.json")) if os.path.exists(here+"/scripts/claims.json") else {})
NA=json.load(open(here+"/scripts/na.json")) if os.path.exists(here+"/scripts/na.json") else {}
checks=[];na=[]
for i in ids:
    if i in CLAIM:
        t,n=CLAIM[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"other","level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"bash build.sh","hooks":{"guard":"verif","enable":"no hooks are needed: the checks read the source","source_commits":[]},"checks":checks,"not_applicable":na,"notes":"static analysis only; see DESIGN.md"}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
open(here+"/MANIFEST.json","a").write("\n")
