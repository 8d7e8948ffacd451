#!/usr/bin/env python3
# Source of MANIFEST.json: edit CLAIMED, run, commit both.
import json
DOC="differential oracle on the chapter the real binary hands to the converter: random documents composed together with the document a reader must see, compared event by event; failing documents are rerun alone"
GEN="Documents are sampled from the constructs the generator knows; wiki, image tools and converter are stand-ins, the program is the real binary."
def doc(what,extra=""): return ("exploration",DOC+"; "+what,GEN+extra)
CLAIMED={
"B01":("exploration","offline checker over the recorded converter call and fake-wiki request log of the real binary, completion orders forced by injected answer delays","Projects, thread counts and completion orders are sampled; wiki and converter are stand-ins, the program is the real binary."),
"P02":doc("monitor for well-formedness, placeholders and the title heading"),
"P03":doc("monitor for the sequence of words"),
"P04":doc("monitor for the style of every character"),
"P05":doc("monitor for reference numbers and list entries"),
"P06":doc("monitor for rows, cells, spans, alignment and cell contents"),
"P07":doc("monitor for list structure"),
"P08":doc("monitor for heading levels, section removal and paragraph breaks"),
"P09":doc("monitor for image positions, sizes, captions, file contents and the request log"),
"P10":doc("monitor for expansions in place and the template requests"),
"P11":doc("monitor for link texts, targets and removals"),
"P12":doc("monitor for rendering identity, size and the requests of formulas"),
"P13":doc("monitor for literal text and vanished comments"),
}
import os
exec(open('/verif/tools/claims.py').read()) if os.path.exists('/verif/tools/claims.py') else None
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        l,t,n=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":t,"level":l,"level_note":n})
    else: na.append({"property":i,"reason":"the check is not built yet"})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"Every check builds the program from /repo's working tree (VH_REPO overrides) and the harness in a scratch directory. No hooks in /repo."},
 open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
print(len(checks),"claimed",len(na),"not")
