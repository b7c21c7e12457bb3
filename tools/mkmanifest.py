#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json: every property with at least one harness H_<ID>_* in spec/ is claimed.
import json,os,re,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
have=set()
for f in glob.glob(os.path.join(V,"spec/*/*.go")):
    have|=set(re.findall(r"^func H_([A-Z]\d\d)_",open(f).read(),re.M))
notes={}
nf=os.path.join(V,"tools","notes.json")
if os.path.exists(nf): notes=json.load(open(nf))
BASE=("Obligations generated from /repo's current source by govc (contract/assertion verifier over Go SSA: loop invariants, "
 "frames, call inlining or contracts, string theory + Z3) and discharged on every run. Trusted: govc itself, go/ssa, Z3 and the listed "
 "models of the standard library. One goroutine, no memory exhaustion. ")
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have and i not in notes.get("skip",{}):
        checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,
          "technique":"contract-based deductive verification (Go SSA verification conditions, Z3)",
          "level":"proof","level_note":BASE+notes.get("level",{}).get(i,"Parts that are only bounded are labelled so in the evidence and never counted as proved.")})
    else:
        na.append({"property":i,"reason":notes.get("skip",{}).get(i,"no contracts for it yet")})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: specifications are overlaid at load time (see DESIGN.md)."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
