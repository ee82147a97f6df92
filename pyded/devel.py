import sys, time
from .proof import run_contract
t=time.time()
m, src, rs = run_contract("contracts/%s.py" % sys.argv[1], sys.argv[3] if len(sys.argv)>3 else "/repo", only=sys.argv[2] if len(sys.argv) > 2 else None,
                     jobs=1 if len(sys.argv) > 2 and sys.argv[2] else 7)
bad = 0
for r in rs:
    n = sum(a + b for a, b in r["obligations"].values()); d = sum(a for a, b in r["obligations"].values())
    print("%-60s %d/%d obligations, %d paths, %d summaries, %.1fs (solver %.1fs) %s" % (r["section"], d, n, r["paths"], r["summaries"], r["wall"], r["solver_time"], r["backends"]))
    seen = set()
    for f in r["failures"]:
        if f["obligation"] in seen or len(seen) > 4: bad += 1; continue
        seen.add(f["obligation"])
        bad += 1
        print("   FAIL %s [%s]\n      %s\n      model %s\n      path %s" % (f["obligation"], f["verdict"], f["detail"][-1500:], dict(list(f["model"].items())[:25]), f["path"][-8:]))
print("failures:", bad, "wall %.1f" % (time.time()-t))
