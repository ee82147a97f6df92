#!/usr/bin/env python3
"""mutants.py [-j JOBS] [-s SEED] [-n N] [FILE...]   Systematic small changes to the code, each against the proofs of the properties whose
functions it is in; what no proof notices is printed for a person to judge (most of it changes nothing that a property speaks of).
Environment: BASE, a copy of /repo to work on (default /repo); SKIP, properties whose proofs are left out (default the slow ones); ONLY, a regular expression for the changed line."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "/repo")
SKIP = set(os.environ.get("SKIP", "C01 C14").split())
SWAPS = [(r"<=", "<"), (r"(?<![<>=!])<(?![=<])", "<="), (r">=", ">"), (r"(?<![<>=!-])>(?![=>])", ">="), (r"==", "!="), (r"!=", "=="), (r"\band\b", "or"), (r"\bor\b", "and"),
         (r"\bnot ", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\bis None\b", "is not None"), (r"\bis not None\b", "is None"),
         (r"\+=", "-="), (r"-=", "+="), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\[0\]", "[-1]"), (r"\[-1\]", "[0]"),
         (r"\bbreak\b", "pass"), (r"\bcontinue\b", "pass"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b([2-9]|[1-9]\d+)\b", lambda m: str(int(m.group(1)) + 1)),
         (r"\.items\(\)", ".items()[1:]"), (r"\breturn (?!None).+", "return None"), (r'"([^"%]+)"', lambda m: '"' + m.group(1) + 'x"'), (r"\bif (.+):$", r"if False and (\1):"),
         (r"\bif (.+):$", r"if True or (\1):"), (r"\bint\(", "float("), (r"\bfloat\(", "int("), (r"\blist\(", "iter("), (r"\.strip\(\)", ""), (r", 1\)", ")"),
         (r"\bin ([^:]+?)(?=:$|[])}])", r"in list(\1)[1:]"), (r"\bin ([^:]+?)(?=:$|[])}])", r"in list(\1)[:-1]"), (r"\bin ([^:]+?)(?=:$|[])}])", "in []"), (r"\bwhile (.+):$", r"while False and (\1):")]


def quals(path, mod):
    """The qualified name of the function that each line is in."""
    out, stack = [], []
    for line in open(path):
        s = line.strip()
        ind = len(line) - len(line.lstrip())
        if s and not s.startswith("#"):
            while stack and ind <= stack[-1][0]:
                stack.pop()
            m = re.match(r"(class|def) (\w+)", s)
            if m:
                stack.append((ind, m.group(2)))
        out.append(mod + ":" + ".".join(n for _, n in stack))
    return out


def functions():
    fs = {}
    for f in glob.glob(HERE + "/evidence/C*.json"):
        d = json.load(open(f))
        for q in d["coverage"].get("function_bodies_executed", []):
            fs.setdefault(q.split(" ")[0], set()).add(d["property"])
    return fs


def mutants(files, fs):
    for rel in files:
        path = BASE + "/" + rel
        mod = rel[:-3].replace("/", ".")
        lines = open(path).read().split("\n")
        qs = quals(path, mod)
        doc = False
        for i, line in enumerate(lines):
            s = line.strip()
            n = s.count('"""')
            if doc or n:
                doc = doc != (n % 2 == 1)
                continue
            if not s or s.startswith(("#", "def ", "class ", "import ", "from ", "@", "else", "try", "except", "finally")) or i >= len(qs):
                continue
            ids = set()
            for q, v in fs.items():
                if q == qs[i] or q.startswith(qs[i] + ".<lambda"):
                    ids |= v
            seen = {line}
            for pat, rep in SWAPS:
                for m in re.finditer(pat, line):
                    new = line[:m.start()] + re.sub(pat, rep, line[m.start():], 1)
                    if new not in seen:
                        seen.add(new)
                        yield rel, i, new, ids, qs[i]
            if re.match(r"[\w.\[\]\"', ]+( [-+*/]?= |\()", s) and not s.endswith((",", "(", ":", "\\", "[", "{")) and not s.startswith(("return", "raise", "yield")):
                new = line[:len(line) - len(line.lstrip())] + "pass"
                yield rel, i, new, ids, qs[i]


def run(mu):
    rel, i, new, ids, q = mu
    d = tempfile.mkdtemp(prefix="mutant")
    try:
        shutil.copytree(BASE, d + "/r", ignore=shutil.ignore_patterns(".git"))
        f = d + "/r/" + rel
        lines = open(f).read().split("\n")
        lines[i] = new
        open(f, "w").write("\n".join(lines))
        for p in sorted(ids - SKIP, key=lambda p: (p == "C13", p)):
            o = subprocess.run(["timeout", "400", HERE + "/bin/prove", p, "", d + "/r"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode("utf-8", "replace")
            if "\nfailures: 0 " not in "\n" + o:
                return p, "unsupported" if not re.search(r"\[(sat|vacuous)\]", o) else "failed"
        return None, ""
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    opt = {"-j": 3, "-s": 1, "-n": 0}
    while a and a[0] in opt:
        opt[a[0]] = int(a[1])
        a = a[2:]
    fs = functions()
    files = a or sorted(os.path.relpath(f, BASE) for f in glob.glob(BASE + "/txstatsd/**/*.py", recursive=True) + glob.glob(BASE + "/twisted/plugins/*.py") if "/tests/" not in f)
    ms = [m for m in mutants(files, fs) if re.search(os.environ.get("ONLY", ""), m[2])]
    random.Random(opt["-s"]).shuffle(ms)
    if opt["-n"]:
        ms = ms[:opt["-n"]]
    caught = {}
    with ThreadPoolExecutor(opt["-j"]) as ex:
        fut = {ex.submit(run, m): m for m in ms}
        for n, f in enumerate(as_completed(fut)):
            p, how = f.result()
            m = fut[f]
            caught[how] = caught.get(how, 0) + 1
            if p is None:
                old = open(BASE + "/" + m[0]).read().split("\n")[m[1]].strip()
                print("SURVIVES %s:%d %s  (%s)\n    - %s\n    + %s" % (m[0], m[1] + 1, m[4].split(":")[1], " ".join(sorted(m[3])), old, m[2].strip()), flush=True)
    print("%d changes: %s" % (len(ms), caught))


main()
