"""Random calls of the client library through InternalClient into a real processor, against what the calls say."""
import random
from hlib import Failure, check, close, same
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.client import InternalClient
from txstatsd.metrics.extendedmetrics import ExtendedMetrics
from txstatsd.metrics.metrics import Metrics
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.processor import MessageProcessor

RULE = ("random gauge, meter, counter and service-level calls (names from the alphabet, integers of all sizes, sample rates) of the two clients, "
        "through InternalClient into the three processors; what is flushed and the metric names against the calls; non-trivial with two names")
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
KINDS = ["gauge", "meter", "increment", "decrement", "sli", "sli_error"]


def name(rng):
    if rng.random() < .5:
        return rng.choice(["a", "b.c", "A", "x-y", "_", "-", ".", "a.", ".a", "a_b", "0", "1.5", "sli", "error", "-.-", "a..b", "c", "g"])
    return "".join(rng.choice(CHARS) for _ in range(rng.randint(1, rng.choice([3, 8, 300]))))


def cases(rng, tier):
    while True:
        names = dict((name(rng), rng.choice(["gauge", "meter", "counter", "sli"])) for _ in range(rng.randint(1, 4)))
        ops = []
        for _ in range(rng.randint(1, 7)):
            n = rng.choice(sorted(names))
            op = {"counter": rng.choice(["increment", "increment", "decrement"]), "sli": rng.choice(["sli", "sli", "sli_error"])}.get(names[n], names[n])
            v = rng.choice([0, 1, -1, rng.randint(-1000, 1000), rng.randint(-10 ** 15, 10 ** 15), 2 ** 31, 2 ** 40 + 1])
            if op not in ("gauge", "sli"):       # (math.trunc of Jython, used by the reports, is wrong beyond 32 bits)
                v = op == "meter" and v % 10 ** 8 or abs(v) % 10 ** 8 * (v < 0 and -1 or 1)
            ops.append([op, n, v, rng.choice([None, None, 1, 2, .5, .25, .1, .999, 1e-5, .123456789012345, rng.random(), 1e-9 * (1 + rng.randint(0, 99))])])
        yield {"mode": rng.randint(0, 2), "ext": rng.randint(0, 1), "ns": rng.choice(["", "", None, "n", "n.m-_0"]), "ops": ops, "lucky": rng.random() < 0.5, "every": rng.randint(0, 1)}


def nontrivial(c):
    return len(set(o[1] for o in c["ops"])) > 1


def valid(c):
    kinds = {}
    for o in c["ops"]:
        if len(o) != 4 or o[0] not in KINDS or not o[1] or set(o[1]) - set(CHARS):
            return False
        k = {"increment": "c", "decrement": "c", "sli_error": "sli"}.get(o[0], o[0])
        if kinds.setdefault(o[1], k) != k:
            return False
    return c["mode"] in (0, 1, 2) and c["ns"] in ("", None, "n", "n.m-_0")


class Logger(object):
    def info(self, text):
        pass


class Counting(object):
    """Passes each line on, and counts them."""
    def __init__(self, p):
        self.p, self.n = p, 0

    def process(self, data):
        self.n += 1
        self.p.process(data)


def run(c):
    drawn = random.random
    if c.get("lucky"):
        random.random = lambda: 0.0     # nothing is sampled away
    try:
        calls(c)
    finally:
        random.random = drawn


def calls(c):
    now = [100.]
    sli = SLIMetricFactory()
    sli.configure({})
    p = [MessageProcessor, ConfigurableMessageProcessor, lambda **k: LoggingMessageProcessor(Logger(), **k)][c["mode"]](
        time_function=lambda: now[0], plugins=[sli])
    bad = []
    p.fail = bad.append
    seen = Counting(p)
    client = [Metrics, ExtendedMetrics][c["ext"]](InternalClient(seen), c["ns"])
    want, rates, totals = {}, {}, {}
    for op, n, v, rate in c["ops"]:
        q = c["ns"] and c["ns"] + "." + n or n
        before = seen.n
        f = getattr(client, op)
        if op == "sli_error":
            f(n)
        elif op == "sli":
            rate is None and f(n, v) or rate is not None and f(n, v, abs(v))
        elif rate is None:
            f(n, v)
        else:
            f(n, v, sample_rate=rate)
        kind = {"increment": "c", "decrement": "c", "sli_error": "sli"}.get(op, op)
        if kind == "c" and c["ext"]:
            totals[n] = totals.get(n, 0) + (op == "increment" and v or -v)
            v = totals[n]
        elif op == "decrement":
            v = -v
        if kind == "sli":
            same(seen.n, before + 1, "lines sent for %s" % op)
            w = want.setdefault(q, [kind, 0, 0])
            w[1] += 1
            w[2] += op == "sli_error"
            continue
        rate = rates.setdefault(n, rate is None and 1 or rate)
        check(seen.n == before + 1 or rate < 1 and seen.n == before, "%d lines sent for %s at rate %r", seen.n - before, op, rate)
        if seen.n == before:
            continue
        if kind == "c" and c["mode"] == 0:
            want.setdefault(q, [kind, 0])[1] += rate < 1 and v / float("%.12g" % rate) or v
        elif kind == "meter":
            want.setdefault(q, [kind, 0])[1] += v
        else:
            want[q] = [kind, v]
    same(bad, [], "lines discarded")
    same(sorted(p.get_metric_names()), sorted(want), "names of the metrics recorded")
    now[0] += 5
    points = {}
    for x in p.flush(5000, 90):
        check(x[0] not in points or c["mode"] == 0 and x[0].startswith("stats.gauge."), "%s is reported twice", x[0])
        points[x[0]] = x[1]
    known = set()

    def point(key, value):
        check(key in points, "%s is not reported: %r", key, sorted(points))
        close(points[key], value, key, 1e-11)
        known.add(key)
    for q, w in want.items():
        if w[0] == "sli":
            point((c["mode"] == 0 and "stats.SLI." or "") + q + ".count", w[1])
            point((c["mode"] == 0 and "stats.SLI." or "") + q + ".error", w[2])
        elif w[0] == "meter":
            pre = (c["mode"] == 0 and "stats.meter." or "") + q
            point(pre + ".count", w[1])
            known.add(pre + ".rate")
        elif w[0] == "gauge":
            point((c["mode"] == 0 and "stats.gauge." or "") + q + ".value", w[1])
        elif c["mode"] == 0:
            point("stats_counts." + q, w[1])
            point("stats." + q, w[1] / 5.)
        else:
            point(q + ".count", w[1])
    rest = [k for k in points if k not in known and not k.startswith("statsd.")]
    same(rest, [], "other points reported")
