#!/usr/bin/env python3
"""refac.py SPEC.py [id...]: run every check against behaviour-preserving edits in a
scratch copy of /repo and report the ones that alarm. Development only."""
import json,os,shutil,subprocess,sys
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec={}
exec(open(sys.argv[1]).read(),spec)
def sh(cmd,cwd,**k):
    return subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; "+cmd],cwd=cwd,capture_output=True,text=True,**k)
r=sh("cd checker && go build -o /tmp/refck .",V)
if r.returncode: print(r.stderr); sys.exit(1)
ids=[c["property"] for c in json.load(open(V+"/MANIFEST.json"))["checks"]]
def run(b):
    W="/tmp/refac."+b["id"]
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(["cp","-a","/repo",W])
    try:
        for f,old,new in b["edits"]:
            t=open(W+"/"+f).read()
            if t.count(old)!=1: return b["id"]+" NO: %s: %d matches of %r"%(f,t.count(old),old[:60])
            open(W+"/"+f,"w").write(t.replace(old,new))
        r=sh("go vet ./... 2>&1 | grep -v '^#' | head -5; go build ./...",W)
        if r.returncode: return b["id"]+" NO build: "+r.stderr[:600]
        r=sh("go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | tail -5",W)
        if "FAIL" in r.stdout: return b["id"]+" NO: tests fail"+r.stdout[-400:]
        bad=[]
        for i in (os.environ["REFAC_CHECKS"].split() if "REFAC_CHECKS" in os.environ else b.get("checks",ids)):
            r=sh("VERIF_REPO=%s VERIF_DIR=/tmp/refv.%s timeout 900 /tmp/refck %s"%(W,b["id"],i),V)
            if r.returncode!=0:
                bad.append(i); open("/tmp/refout.%s.%s"%(b["id"],i),"w").write(r.stdout+r.stderr)
        return b["id"]+": "+("quiet" if not bad else "ALARM "+" ".join(bad))
    finally:
        shutil.rmtree(W,ignore_errors=True); shutil.rmtree("/tmp/refv."+b["id"],ignore_errors=True)
L=[b for b in spec["REFS"] if len(sys.argv)<3 or b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(7) as ex:
    for x in ex.map(run,L): print(x,flush=True)
