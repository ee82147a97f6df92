#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property (from its contract, harness and seeded changes), tools/design_tail.md."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
caught = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    caught.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
CAUGHT = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
out = [open(H + "/tools/design_head.md").read().rstrip(), "", "## Property by property", ""]
for p in props:
    pid = p["id"]
    t = ast.parse(open("%s/contracts/%s.py" % (H, pid)).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("FUNCTIONS", "ASSUMPTIONS", "TRUSTED", "BOUNDED"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    sections = [n.decorator_list[0].args[0].value for n in t.body if isinstance(n, ast.FunctionDef) and n.decorator_list]
    h = open("%s/harness/H%s.py" % (H, pid[1:])).read()
    hdoc = re.match(r'"""(.*?)"""', h, re.S).group(1)
    one = lambda s: " ".join(s.split())
    out += ["### %s %s" % (pid, p["title"]), ""]
    out += ["- **Specified and proved** (`contracts/%s.py`; sections: %s). %s" % (pid, ", ".join(sections), one(ast.get_docstring(t) or ""))]
    if d.get("FUNCTIONS"):
        out += ["- **Functions under contract**: " + "; ".join(d["FUNCTIONS"]) + "."]
    out += ["- **What the tests cannot settle**: " + one(p["why_tests_cant"])]
    if d.get("TRUSTED"):
        out += ["- **Trusted (external contracts, not checked)**: " + "; ".join(d["TRUSTED"]) + "."]
    if d.get("ASSUMPTIONS"):
        out += ["- **Assumed**: " + "; ".join(d["ASSUMPTIONS"]) + "."]
    if d.get("BOUNDED"):
        out += ["- **Bounded only**: " + "; ".join(d["BOUNDED"]) + "."]
    out += ["- **Failing inputs searched by** `harness/H%s.py` (bounded, never counted as proof): %s" % (pid[1:], one(hdoc))]
    if pid in caught:
        out += ["- **Seeded changes**: " + "; ".join("%s (%s)" % (n, CAUGHT.get(n, "not run yet")) for n, m in caught[pid]) + "."]
    out += [""]
out += [open(H + "/tools/design_tail.md").read().rstrip(), ""]
open(H + "/DESIGN.md", "w").write("\n".join(out))
