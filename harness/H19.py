"""Random command lines (short, long and joined forms, repeats) and configuration files, against an independent account of which value wins."""
import os
import sys
import tempfile
from hlib import check, same
from twisted.python import usage
from txstatsd.service import StatsDOptions

RULE = "0-5 options on the command line in random forms and 0-8 items in a random configuration file with plugin, carbon-cache and unrelated sections; non-trivial with an item in the file"
CACHE = {"carbon-cache-host": ("h", str), "carbon-cache-port": ("p", "port"), "carbon-cache-name": ("n", str)}
SINGLE = {"listen-port": ("l", int, 8125), "flush-interval": ("i", int, 60000), "prefix": ("x", str, None), "instance-name": ("N", str, None),
          "report": ("r", str, None), "monitor-message": ("m", str, "txstatsd ping"), "monitor-response": ("o", str, "txstatsd pong"),
          "statsd-compliance": ("s", int, 1), "dump-mode": ("d", int, 0), "routing": ("g", str, ""), "listen-tcp-port": ("t", int, None),
          "max-queue-size": ("Q", int, 20000), "max-datapoints-per-message": ("M", int, 1000), "http-port": ("P", int, None)}
SHORT = dict([(n, d[0]) for n, d in CACHE.items()] + [(n, d[0]) for n, d in SINGLE.items()])
UNKNOWN = ["colour", "listen", "port", "config-file", "listen_port", "help", "version", "opts"]
TEXTS = ["", "a", "two words", "x=y", "any => drop", "process,net", "7", "0"]
NUMBERS = ["0", "1", "42", "2004", "0042", "65535", "-3", "100000"]
BAD = ["", "abc", "1.5", "0x10"]


def kind(name):
    return CACHE[name][1] if name in CACHE else SINGLE[name][1]


def value(rng, name):
    k = kind(name)
    if name in SINGLE and SINGLE[name][2] is not None and rng.random() < 0.15:
        return str(SINGLE[name][2])
    if k is str:
        return rng.choice(TEXTS)
    if rng.random() < 0.03:
        return rng.choice(BAD)
    return rng.choice(NUMBERS if k is int else NUMBERS[:6])


def cases(rng, tier):
    names = sorted(SHORT)
    while True:
        some = rng.sample(names, rng.randint(1, 6))
        cmd = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            n = rng.choice(some)
            cmd.append([n, value(rng, n), rng.choice(["-x v", "-xv", "--x v", "--x=v"])])
        file_ = None
        if rng.random() < 0.85:
            file_ = []
            items = []
            for n in rng.sample(some, rng.randint(0, len(some))):
                if n not in CACHE:
                    items.append([n, value(rng, n)])
            if rng.random() < 0.4:
                items.append([rng.choice(UNKNOWN), rng.choice(TEXTS + NUMBERS)])
            if rng.random() < 0.3:
                items += [[n, value(rng, n)] for n in sorted(CACHE)]
            if rng.random() < 0.2:
                items.append(["config", "/nowhere"])
            rng.shuffle(items)
            file_.append(["statsd", items])
            for i in range(rng.choice([0, 0, 1, 2, 3])):
                it = [[n, value(rng, n)] for n in sorted(CACHE)]
                if rng.random() < 0.2:
                    it.append([rng.choice(UNKNOWN[:3]), "1"])
                rng.shuffle(it)
                file_.append([rng.choice(["carbon-cache-%s", "carbon-cache%s"]) % rng.choice(["a", "b", "1", "10"]) + str(i), it])
            for i in range(rng.choice([0, 0, 1, 2])):
                file_.append(["plugin_" + "pq"[i], [[rng.choice(["rules", "listen-port", "key", "prefix"]), rng.choice(TEXTS)] for _ in range(rng.randint(0, 1))] + [["z", "1"]][:rng.randint(0, 1)]])
            if rng.random() < 0.3:
                file_.append([rng.choice(["other", "statsd2", "carbon", "plugins"]), [[rng.choice(some), "5"]]])
            rng.shuffle(file_)
        yield {"cmd": cmd, "file": file_, "at": rng.randint(0, len(cmd)), "form": rng.choice(["-c", "--config", "-c+", "--config="]), "argv": rng.random() < 0.15,
               "sep": rng.choice([" = ", ": ", "="])}


def nontrivial(c):
    return c["file"] is not None and any(s[1] for s in c["file"])


def valid(c):
    if c["file"] is not None:
        secs = [s[0] for s in c["file"]]
        if secs.count("statsd") != 1 or len(set(secs)) != len(secs):
            return False
        for s, items in c["file"]:
            ns = [i[0] for i in items]
            got = [n for n in ns if n in CACHE]
            if s == "statsd" and len(set(got)) not in (0, 3):
                return False
            if s.startswith("carbon-cache") and len(set(got)) != 3:
                return False
            if len(set(ns)) != len(ns):
                return False
    return 0 <= c["at"] <= len(c["cmd"]) and all(n in SHORT for n, v, f in c["cmd"])


class Refused(Exception):
    pass


def convert(name, v):
    k = kind(name)
    if k is str:
        return v
    try:
        n = int(v)
    except ValueError:
        raise Refused()
    if k == "port" and not 0 <= n <= 65535:
        raise Refused()
    return n


def expected(c):
    out = dict((n, d[2]) for n, d in SINGLE.items())
    lists = dict((n, []) for n in CACHE)
    given = set()
    plugins = {}
    for n, v, f in c["cmd"]:
        given.add(n)
        v = convert(n, v)
        if n in CACHE:
            lists[n].append(v)
        else:
            out[n] = v
    for s, items in c["file"] or []:
        if s.startswith("plugin_"):
            plugins[s] = dict((a, b) for a, b in items)
        if s == "statsd" or s.startswith("carbon-cache"):
            for n, v in items:
                if n in SHORT and n not in given:
                    v = convert(n, v)
                    if n in CACHE:
                        lists[n].append(v)
                    else:
                        out[n] = v
    return out, lists, given, plugins


def destinations(lists):
    return sorted(zip(lists["carbon-cache-host"], lists["carbon-cache-port"], lists["carbon-cache-name"]))


def run(c):
    path = None
    args = []
    try:
        if c["file"] is not None:
            h, path = tempfile.mkstemp()
            os.close(h)
            f = open(path, "w")
            for s, items in c["file"]:
                f.write("[%s]\n" % s + "".join("%s%s%s\n" % (n, c["sep"], v) for n, v in items) + "\n")
            f.close()
        cmd = [["config", None, c["form"]]] if path else []
        cmd = c["cmd"][:c["at"]] + cmd + c["cmd"][c["at"]:]
        for n, v, form in cmd:
            if n == "config":
                args += {"-c": ["-c", path], "--config": ["--config", path], "-c+": ["-c" + path], "--config=": ["--config=" + path]}[form]
            elif form == "-xv" and v:
                args.append("-" + SHORT[n] + v)
            elif form == "--x v":
                args += ["--" + n, v]
            elif form == "--x=v":
                args.append("--%s=%s" % (n, v))
            else:
                args += ["-" + SHORT[n], v]
        try:
            want = expected(c)
        except Refused:
            want = None
        o = StatsDOptions()
        argv = sys.argv
        try:
            try:
                if c["argv"]:
                    sys.argv = ["twistd"] + args
                    o.parseOptions()
                else:
                    o.parseOptions(args)
            finally:
                sys.argv = argv
        except (usage.UsageError, ValueError), e:
            check(want is None, "the options were refused: %s", e)
            return
        check(want is not None, "a value of the wrong type was accepted")
        out, lists, given, plugins = want
        for n in sorted(out):
            same(o[n], out[n], "the value of %s in effect" % n)
            check(type(o[n]) is type(out[n]), "%s has type %s", n, type(o[n]))
        same(o["config"], path, "the value of config in effect")
        for n in sorted(lists):
            got = list(o[n])
            if n not in given:
                got, lists[n] = sorted(got), sorted(lists[n]) if given & set(CACHE) else lists[n]
                same(got, sorted(lists[n]), "the destinations' %s" % n)
            else:
                same(got, lists[n], "the destinations' %s" % n)
        if not given & set(CACHE):
            same(destinations(o), destinations(lists), "the destinations")
        for s in plugins:
            same(dict(o[s]), plugins[s], "the items kept for %s" % s)
        for s in o:
            check(not s.startswith("plugin_") or s in plugins, "%s was kept", s)
    finally:
        if path:
            os.remove(path)
