#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md (between the markers).
import json,glob,os,re
rows=["| bug | check | needs | breaks |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m["property"],m["needs"],m["what_it_breaks"]))
t="<!-- bugs -->\n"+"\n".join(rows)+"\n<!-- /bugs -->"
s=open('/verif/DESIGN.md').read()
s=s.replace("BUGTABLE",t) if "BUGTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->",lambda _:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
