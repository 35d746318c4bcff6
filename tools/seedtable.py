#!/usr/bin/env python3
"""seedtable.py: rewrite the table of planted changes in DESIGN.md."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by={}
for d in sorted(os.listdir(V+"/seeded")):
    by.setdefault(json.load(open(V+"/seeded/%s/meta.json"%d))["property"],[]).append(d)
t="<!--seeds-->\n| Check | Catches |\n|-|-|\n"+"".join("| %s | %s |\n"%(k,", ".join(v)) for k,v in sorted(by.items()))+"<!--/seeds-->"
p=V+"/DESIGN.md"; s=open(p).read()
s=s.replace("SEEDTABLE",t) if "SEEDTABLE" in s else re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
