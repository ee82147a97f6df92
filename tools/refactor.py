#!/opt/veriftools/pyvenv/bin/python3
"""[IDS=...] [SKIP=...] refactor.py [-h] [NAME...]: do the proofs (with -h: the whole checks) stay quiet on the edits of refactorings/spec.py?"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/refactorings")
from spec import SPEC
args = sys.argv[1:]
whole = "-h" in args
names = [a for a in args if a != "-h"]
base = os.environ.get("VERIF_REPO", "/repo")
top = tempfile.mkdtemp(prefix="refactor")


def one(job):
    name, path, pairs, pid = job
    d = tempfile.mkdtemp(dir=top)
    shutil.copytree(base, d + "/repo", ignore=shutil.ignore_patterns(".git"))
    f = d + "/repo/" + path
    s = open(f).read()
    for old, new in pairs:
        if old not in s:
            shutil.rmtree(d)
            return name, pid, "TEXT NOT FOUND " + old[:60]
        s = s.replace(old, new)
    open(f, "w").write(s)
    if whole:
        env = dict(os.environ, VERIF_REPO=d + "/repo")
        # a copy of the machinery, so that evidence files are not overwritten
        v = d + "/verif"
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.mkdir(v + "/evidence")
        p = subprocess.run([v + "/bin/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = "" if p.returncode == 0 else p.stdout.decode()[:900]
    else:
        p = subprocess.run(["timeout", "600", HERE + "/bin/prove", pid, "", d + "/repo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = p.stdout.decode()
        ok = "failures: 0" in t
        out = "" if ok else "\n".join(l[:260] for l in t.splitlines() if "FAIL" in l or "ndischarged" in l or "rror" in l or "nsupported" in l or "failures" in l)[:1000] or t[-500:]
    shutil.rmtree(d)
    return name, pid, out


only = os.environ.get("IDS", "").split()
skip = os.environ.get("SKIP", "").split()
jobs = [(n, p, pairs, i) for n, p, ids, pairs in SPEC for i in ids if (not names or n in names) and (not only or i in only) and i not in skip]
bad = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4" if whole else "6"))) as ex:
    for x in as_completed([ex.submit(one, j) for j in jobs]):
        name, pid, out = x.result()
        if out:
            bad += 1
            print("%s %s:\n   %s" % (name, pid, out.replace("\n", "\n   ")), flush=True)
print("%d runs, %d not quiet" % (len(jobs), bad))
shutil.rmtree(top)
