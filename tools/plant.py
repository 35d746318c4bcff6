#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: make the seeded bugs a spec describes, each only if it
applies to lines of the original repository, builds, passes the tests, and its
demonstration fails with it and passes without it. Development only."""
import json,os,re,shutil,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec={}
exec(open(sys.argv[1]).read(),spec)
HELP=open(V+"/tools/demo_helpers.go.txt").read()
DEMO='''#!/bin/bash
# the test beside this file, run inside the package it tests
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
o=$(mktemp) || exit 3
trap 'rm -f "$o"' EXIT
cat > "$o" <<J
{"Replace": {"$PWD/PKG/demo_seeded_test.go": "$here/demo_test.go.txt"}}
J
go test -count=1 -vet=off -timeout 280s -overlay "$o" -run '^TestDemo$' ./PKG
'''
def sh(cmd,cwd,**k):
    return subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; "+cmd],cwd=cwd,capture_output=True,text=True,**k)
W="/tmp/plantwork"
def fresh():
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(["cp","-a","/repo",W])
base=open("/opt/vp/BASELINE.json").read()
for b in spec["BUGS"]:
    if len(sys.argv)>2 and b["id"] not in sys.argv[2:]: continue
    d=V+"/seeded/"+b["id"]
    if len(sys.argv)==2 and os.path.exists(d+"/patch.diff"): continue
    fresh()
    bad=None
    for f,old,new in b["edits"]:
        t=open(W+"/"+f).read()
        if t.count(old)!=1: bad="%s: %d matches of %r"%(f,t.count(old),old[:60]); break
        open(W+"/"+f,"w").write(t.replace(old,new))
    if bad: print(b["id"],"NO:",bad); continue
    r=sh("gofmt -l "+" ".join(sorted({f for f,_,_ in b["edits"]}))+"; go build ./...",W)
    if r.returncode: print(b["id"],"NO build:",r.stderr[:600]); continue
    if r.stdout.strip(): sh("gofmt -w "+r.stdout.replace("\n"," "),W)
    diff=sh("git diff",W).stdout
    # removed lines must be original ones
    own=0
    for f in sorted({f for f,_,_ in b["edits"]}):
        bl=sh("git blame -s --line-porcelain HEAD -- "+f+" | grep -E '^[0-9a-f]{40} ' ",W).stdout.split("\n")
        orig={int(l.split()[2]) for l in bl if l and l.split()[0].startswith("1194aae")}
        cur=0
        for l in sh("git diff -U0 -- "+f,W).stdout.split("\n"):
            m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
            if m:
                s,n=int(m[1]),int(m[2] or 1)
                own+=sum(1 for x in range(s,s+n) if x in orig)
    if not own: print(b["id"],"NO: changes no original line"); continue
    r=sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | tail -5",W)
    if "FAIL" in r.stdout: print(b["id"],"NO: tests fail",r.stdout[-400:]); continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    pkg=b.get("pkg","tests")
    test=b["test"]
    if pkg=="tests": test=HELP.replace("//BODY",test)
    imp=['\t"%s"'%i for i in b.get("imports",[])]+['\t%s "%s"'%i for i in b.get("named",[])]
    if imp: test=test.replace("import (","import (\n"+"\n".join(imp),1)
    open(d+"/demo_test.go.txt","w").write(test)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write(DEMO.replace("PKG",pkg)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    g=sh("bash %s/demo.sh"%d,"/repo"); f=sh("bash %s/demo.sh"%d,W)
    if g.returncode!=0: print(b["id"],"NO: demo fails on the good tree",(g.stdout+g.stderr)[-700:]); shutil.rmtree(d); continue
    if f.returncode==0: print(b["id"],"NO: demo passes with the bug"); shutil.rmtree(d); continue
    if "TestDemo" not in f.stdout+f.stderr and "panic" not in f.stdout: print(b["id"],"odd failure",(f.stdout+f.stderr)[-500:])
    print(b["id"],"ok:",[l for l in f.stdout.split("\n") if "demo_test" in l or "panic" in l or ".txt:" in l][:2])
shutil.rmtree(W,ignore_errors=True)
