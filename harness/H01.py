"""Random lines and flushes: nothing is raised; what is not a sample changes nothing; a sample changes its own metric only."""
import re
from hlib import check, same
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.processor import MessageProcessor

RULE = "random lines (well-formed, bad values and rates, malformed, control and non-ASCII characters) and flushes in the three modes, against an independent parser and the same history without the line; non-trivial with two samples and a bad line"
NAMES = ["aa", "b.b", "c c", "d//d", "e\xe9e", "ff", "AA", "aa_", "aA", ""]
VALUES = ["1", "-3", "2.5", "1e3", ".5", "0", " 7 ", "+4", "x", "nan", "inf", "-inf", "1e999", "", "1:2", "1 2", "--1", "error", "\xff", "0x10", "None", "1,5"]
TYPES = ["c", "c", "ms", "g", "m", "sli", "zz", "", "C", "ms ", "c\n"]
EXTRAS = [None, None, None, "@0.5", "@0", "@0.0", "@", "@x", "@.", "@1.2.3", "@1e-1", "@-1", "0.5", "", "@0.25 ", "2", "@1e-999", "@nan", "@1e999", "@inf", "@" + "9" * 400]
ODD = ["", " ", ":", "|", ":|", "aa", "aa:1", "aa|c", "aa:1|c|@1|x", "aa:1||", ":1|c", "|c:1", "aa:1|c\x00", "\xff\xfe", "aa 1|c", "aa::|c", "aa:|g", "aa:1|2|3|4|5", "\n", "x" * 300, "aa:1|g|", u"\u20ac:1|c", u"aa:\u20ac|g"]
NUMBER = re.compile(r"[ \t]*[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?[ \t]*$")


def cases(rng, tier):
    while True:
        ops = []
        names = rng.choice([NAMES, rng.sample(NAMES, 2), ["aa", rng.choice(NAMES)]])
        types = rng.random() < 0.3 and [rng.choice(TYPES[:6])] or None
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < 0.12:
                ops.append("flush")
            elif r < 0.3:
                ops.append(rng.choice(ODD))
            else:
                good = rng.random() < 0.5
                x = good and rng.choice([None, "@0.5"]) or rng.choice(EXTRAS)
                ops.append("%s%s:%s|%s%s%s" % (rng.choice(["", "", " ", "\t"]), rng.choice(names), rng.choice(VALUES[:good and 6 or None]),
                                               rng.choice(types or TYPES[:good and 6 or None]), x is not None and "|" + x or "", rng.choice(["", "", "\n", "\r\n", " "])))
        yield {"mode": rng.randint(0, 2), "prefix": rng.choice(["", "pre"]), "ops": ops}


def nontrivial(c):
    good = [o for o in c["ops"] if o != "flush" and parse(o, c["mode"])]
    return len(good) > 1 and len(good) < len([o for o in c["ops"] if o != "flush"])


def valid(c):
    return c["mode"] in (0, 1, 2) and c["prefix"] in ("", "pre")


def finite(text):
    return NUMBER.match(text) is not None and abs(float(text)) < 1e308


def parse(line, mode):
    """The name of the sample in a line, or None."""
    halves = line.strip().split(":", 1)
    if len(halves) != 2:
        return None
    fields = halves[1].split("|")
    if len(fields) not in (2, 3):
        return None
    value, kind = fields[0], fields[1]
    if kind == "sli":
        ok = (value == "error" or value in ("nan", "inf", "-inf", "1e999") or finite(value)) and \
            (len(fields) == 2 or finite(fields[2]))
    elif kind in ("c", "ms", "g", "m"):
        ok = finite(value)
        if ok and kind == "c" and mode == 0 and len(fields) == 3:
            m = re.match(r"@([0-9.]+([eE][-+]?[0-9]+)?)", fields[2])
            ok = m is not None and finite(m.group(1)) and float(m.group(1)) > 0
    else:
        ok = False
    return ok and (kind, halves[0]) or None


class Logger(object):
    def info(self, text):
        pass


class Server(object):
    def __init__(self, c):
        self.now = 100
        sli = SLIMetricFactory()
        sli.configure({})
        kw = dict(time_function=lambda: self.now, plugins=[sli])
        if c["mode"]:
            kw["message_prefix"] = c["prefix"]
        self.own = (c["mode"] and c["prefix"] and c["prefix"] + "." or "") + "statsd."
        self.p = [MessageProcessor, ConfigurableMessageProcessor, lambda **k: LoggingMessageProcessor(Logger(), **k)][c["mode"]](**kw)

    def play(self, ops):
        for op in ops:
            if op == "flush":
                self.points()
            else:
                self.p.process(op)
        return self

    def points(self):
        self.now += 5
        return sorted(repr(x) for x in self.p.flush(5000, 90) if not x[0].startswith(self.own))

    def names(self):
        return sorted(self.p.get_metric_names())


def run(c):
    history, good = [], []
    whole = Server(c)

    def state():
        """What a server that got only the samples so far knows and would report."""
        s = Server(c).play(good)
        return s.names(), s.points()
    names, points = state()
    for op in c["ops"]:
        if op == "flush":
            same(whole.points(), points, "points flushed, against those of the samples alone")
            history.append(op)
            good.append(op)
            names, points = state()
            continue
        whole.play([op])
        found = parse(op, c["mode"])
        history.append(op)
        if found:
            good.append(op)
            known, a = names, points
            names, points = state()
            b = points
            name = re.sub("[^a-zA-Z0-9_.-]", "", found[1].replace("//", "-").replace(" ", "_"))
            same(names, sorted(set(known + [name])), "names known after a sample %r" % op)
            for x in set(a) ^ set(b):
                check(name in x, "the sample %r changed %s", op, x)
            if found[0] != "ms" or c["mode"] != 0:
                check(name in "".join(b), "the sample %r is not reported: %r", op, b)
        same(whole.names(), names, "names known after %r" % op)
    same(whole.points(), points, "points flushed at the end, against those of the samples alone")
