#!/opt/veriftools/pyvenv/bin/python3
"""mut.py ID FILE OLD NEW [harness|proof|both]: does the check of a property notice this change of the source?"""
import os, shutil, subprocess, sys, tempfile
pid, path, old, new = sys.argv[1:5]
what = sys.argv[5] if len(sys.argv) > 5 else "proof"
d = tempfile.mkdtemp(prefix="mut")
r = d + "/repo"
shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
s = open(r + "/" + path).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert s.count(old) >= 1, "text not found"
open(r + "/" + path, "w").write(s.replace(old, new, 1))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if what in ("proof", "both"):
    out = subprocess.run([here + "/bin/prove", pid, "", r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    print("\n".join(l[:300] for l in out.splitlines() if not l[:1].isalpha() or "failures" in l or "ot discharged" in l)[:1800] or out[-600:])
if what in ("harness", "both"):
    env = dict(os.environ, VERIF_REPO=r)
    sys.path.insert(0, here + "/bin")
    out = subprocess.run([here + "/bin/check.py", pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    print(out if len(out) < 2500 else out[:1500] + '\n...\n' + out[-900:])
shutil.rmtree(d)
