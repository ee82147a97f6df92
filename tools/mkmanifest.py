#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contract and harness files present."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = {}
exec(open(HERE + "/tools/na.py").read()) if os.path.exists(HERE + "/tools/na.py") else None
checks, na = [], []
for p in props:
    pid = p["id"]
    c = "%s/contracts/%s.py" % (HERE, pid)
    if os.path.exists(c) and pid not in NA:
        text = open(c).read()
        note = re.search(r'^NOTE = """(.*?)"""', text, re.S | re.M)
        checks.append({"property": pid, "quick_cmd": "bin/check.py %s" % pid, "thorough_cmd": "bin/check.py %s --thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "contracts on the real functions, verification conditions generated from /repo's current AST by pyded, discharged by z3/cvc5; failing inputs searched on the real code",
                       "level": "proof",
                       "level_note": " ".join((note.group(1) if note else "All obligations of contracts/%s.py, for all inputs; floats as reals." % pid).split())})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check yet: its contracts are still being written.")})
json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
