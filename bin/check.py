#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID: decides one property on /repo's current working tree and rewrites evidence/ID.json."""
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

TRUSTED = [
    "pyded, the verification-condition generator in /verif/pyded (Python semantics of the subset it accepts, loop summaries, library models)",
    "z3 and cvc5", "Jython's parser, which supplies the AST of the current source",
    "integers are unbounded (as in Python); floats are treated as real numbers, so rounding of arithmetic is not verified",
]


def env():
    e = dict(os.environ)
    e["JYTHONPATH"] = ":".join([os.path.join(HERE, "harness", "stubs"), "/opt/jy/compat", REPO, "/opt/jy/lib"])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["JAVA_TOOL_OPTIONS"] = ""
    return e


def harness_cmd(pid, *args):
    return ["/usr/bin/jython", "-Dpython.cachedir.skip=true", "-B", os.path.join(HERE, "harness", "hlib.py"), "H" + pid[1:]] + list(args)


def start_harness(pid, seed, tier, out):
    quick = tier != "thorough"
    limit, seconds = (20000, 30) if quick else (2000000, 400)
    log = tempfile.TemporaryFile()
    p = subprocess.Popen(harness_cmd(pid, "search", out, str(seed), str(limit), str(seconds), tier), env=env(),
                         cwd=tempfile.gettempdir(), stdout=log, stderr=subprocess.STDOUT)
    p.log, p.patience = log, seconds + 300
    return p


def wait(p):
    try:
        p.wait(p.patience)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        p.patience = 0
    n = p.log.tell()
    p.log.seek(max(0, n - 8000))
    return p.log.read().decode("utf-8", "replace")


def write_replay(pid, tag, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, tag))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            out.append(line.strip())
    return out


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        return subprocess.call(harness_cmd(pid, "replay", "-", os.path.abspath(sys.argv[3])), env=env())
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    contract = os.path.join(HERE, "contracts", pid + ".py")
    hfile = os.path.join(HERE, "harness", "H%s.py" % pid[1:])
    violations = []
    cov = {}
    assumptions = []

    proc = out = None
    if os.path.exists(hfile):
        fd, out = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        proc = start_harness(pid, seed, tier, out)

    level = "other"
    proof_fail = []
    if os.path.exists(contract):
        from pyded import proof
        level = "proof"
        m, source, results = None, None, []
        try:
            m, source, results = proof.run_contract(contract, REPO, budget=420 if tier == "quick" else 2000)
        except Exception as x:
            proof_fail.append({"obligation": "extraction of the source", "verdict": "error", "detail": str(x)})
        n = sum(a + b for r in results for a, b in r["obligations"].values())
        d = sum(a for r in results for a, b in r["obligations"].values())
        for r in results:
            for f in r["failures"]:
                proof_fail.append(dict(f, section=r["section"]))
        backends = {}
        for r in results:
            for k, v in r["backends"].items():
                backends[k] = backends.get(k, 0) + v
        executed, used = {}, set()
        for r in results:
            executed.update(r["executed"])
            used |= set(r["contracts"])
        level = getattr(m, "LEVEL", "proof") if m else "proof"
        cov.update(obligations=n, discharged=d, checker_cmd="bin/check.py %s" % pid,
                   trusted_base=TRUSTED + list(getattr(m, "TRUSTED", [])),
                   functions_under_contract=sorted(set(getattr(m, "FUNCTIONS", [])) or
                                                   {r["section"] for r in results}),
                   function_bodies_executed=["%s (line %s)" % (q, l) for q, l in sorted(executed.items())],
                   callee_contracts_used=sorted(used),
                   sections=[{"section": r["section"], "obligations": sum(a + b for a, b in r["obligations"].values()),
                              "discharged": sum(a for a, b in r["obligations"].values()), "paths": r["paths"],
                              "loop_summaries": r["summaries"], "queries": r["queries"],
                              "solver_s": r["solver_time"], "wall_s": r["wall"]} for r in results],
                   discharged_by=backends,
                   solver_s=round(sum(r["solver_time"] for r in results), 2),
                   reachability_checks=sum(1 for r in results for v in r["covers"].values() if v),
                   bounded_parts=list(getattr(m, "BOUNDED", [])),
                   source_sha256=source.sha if source else {})
        assumptions = list(getattr(m, "ASSUMPTIONS", []))

    if proc is not None:
        text = wait(proc)
        h = None
        try:
            h = json.load(open(out))
        except ValueError:
            # once more: the machine may have been short of memory
            if proc.patience:
                proc = start_harness(pid, seed, tier, out)
                text = wait(proc)
            try:
                h = json.load(open(out))
            except ValueError:
                pass
        os.unlink(out)
        if h is None:
            proof_fail.append({"obligation": "the bounded search runs", "verdict": "error", "detail": text[-4000:]})
        else:
            search = {"evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"], "rule": h["rule"],
                      "samples": h["samples"], "wall_s": h["wall"]}
            cov["bounded_search_for_failing_inputs"] = search
            if level != "proof":
                cov.update({k: search[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
                cov.setdefault("explanation", "bounded search only")
            listed = known_findings(pid)
            for text_, still, case, msg in h["known"]:
                if still:
                    line = [l for l in listed if l.endswith(" " + text_)]
                    if line:
                        print(line[0])
                    else:
                        violations.append(("known", {"property": pid, "case": case, "message": msg,
                                                     "replay_cmd": "bin/check.py %s --replay FILE" % pid}, True))
            if h["failure"]:
                f = h["failure"]
                violations.append(("input", {"property": pid, "case": f["case"], "message": f["message"],
                                             "replay_cmd": "bin/check.py %s --replay FILE" % pid,
                                             "failed_obligations": proof_fail[:20]}, True))
    if proof_fail and not any(v[2] for v in violations):
        violations.append(("obligation", {"property": pid, "failed_obligations": proof_fail[:40]}, False))
    for f in proof_fail[:12]:
        print("obligation not discharged: %s [%s] %s" % (f["obligation"], f["verdict"], str(f.get("detail"))[:400]))
    for tag, data, replayed in violations:
        path = write_replay(pid, tag, data)
        if "message" in data:
            print("failing input: %s\n  %s" % (data["case"][:600], data["message"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if replayed else " no-failing-input-found"))
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s obligations discharged of %s, %s inputs tried, %.1f s" % (
        pid, cov.get("discharged"), cov.get("obligations"),
        cov.get("bounded_search_for_failing_inputs", {}).get("evaluations"), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
