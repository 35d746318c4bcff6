exec(open("/tmp/refs/r1.py").read())
REFS=[r for r in REFS if r["id"][:4] in ("r08c","r08d","r09-","r09b","r09c") or r["id"][:3] in ("r10","r11","r12")]
