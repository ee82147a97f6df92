#!/usr/bin/env python3
"""seed.py make SPEC.py | test ID...   Planted bugs.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)].
make writes /verif/seeded/<id>; test applies it to /repo, runs tests, demo and the property's check, and undoes it."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = HERE + "/seeded/"


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = tempfile.mkdtemp(prefix="seed")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
            for path, old, new in s["edits"]:
                f = d + "/repo/" + path
                t = open(f).read()
                assert t.count(old) == 1, (s["id"], path, old, t.count(old))
                open(f, "w").write(t.replace(old, new))
            out = SEEDED + s["id"]
            os.makedirs(out, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", d + "/repo", "diff"])
            open(out + "/patch.diff", "wb").write(diff)
        finally:
            shutil.rmtree(d)
        open(out + "/demo.py", "w").write("import sys\nsys.path.insert(0, '.')\n" + s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh >/dev/null 2>&1\nexec jython "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("made", s["id"])


def test(ids):
    assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = SEEDED + i
        prop = json.load(open(d + "/meta.json"))["property"]
        clean = sh("cd /repo && bash %s/demo.sh" % d)
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            bad = sh("cd /repo && bash %s/demo.sh" % d)
            sh("bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1")
            missing = stable - set(json.load(open("/tmp/seedtest.json"))["passed"])
            c = sh("cd /verif && bin/check.py %s" % prop)
        finally:
            sh("git -C /repo checkout -- .")
        out = c.stdout.decode("utf-8", "replace")
        v = [l for l in out.splitlines() if "VIOLATION" in l]
        print("%-28s %s clean=%d patched=%d tests-broken=%d check=%d %s" % (i, prop, clean.returncode, bad.returncode, len(missing), c.returncode, v and ("no input" if "no-failing" in v[0] else "input")), flush=True)
        if clean.returncode or not bad.returncode:
            print((clean.stdout + bad.stdout).decode()[-800:])
        if missing:
            print(sorted(missing)[:4])


{"make": lambda: make(sys.argv[2]), "test": lambda: test(sys.argv[2:] or sorted(os.listdir(SEEDED)))}[sys.argv[1]]()
