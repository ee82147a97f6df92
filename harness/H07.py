"""Random histories of configurable timers against exact rational window statistics."""
import math
from fractions import Fraction
from hlib import check, close, same
from txstatsd.metrics.timermetric import TimerMetricReporter
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor

RULE = "random durations (zero, negative, fractional, repeated; also windows above 1028) and reports at random times of 1-3 timers; non-trivial with two reports and a duration"


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        ops = []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.6:
                v = rng.choice([rng.randint(0, 20), rng.randint(-3, 300), rng.randint(-8, 1000) / 8.0, 0.1, 0, 0.0, 7, 1e-3, 123456.789])
                ops.append(["ms", rng.choice(["a", "a", "b.c"]), v])
            elif r < 0.72:
                ops.append(["wait", rng.choice([0, 1, 10, 0.5, 0.25, 7, 60, -2])])
            else:
                ops.append(["report"])
        if k % 60 == 0:
            ops.insert(rng.randint(0, len(ops)), ["many", "a", rng.choice([1000, 1028, 1029, 2500]), rng.randint(0, 999)])
            ops.append(["report"])
        yield {"mode": rng.choice(["direct", "processor"]), "start": rng.choice([0, 100, 100.75, 42.5]), "prefix": rng.choice(["", "pre", "x.y"]), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("report") > 1 and "ms" in k


def stats(w):
    w = [Fraction(x) for x in w]
    n = len(w)
    if not n:
        return 0, 0, 0, 0
    mean = sum(w) / n
    var = n > 1 and sum((x - mean) ** 2 for x in w) / (n - 1) or 0
    return min(w), max(w), mean, math.sqrt(float(var))


def run(c):
    clock = [c["start"]]
    now = lambda: clock[0]
    timers = {}
    objs = {}
    prefix = c["prefix"]
    dot = prefix and prefix + "." or ""
    if c["mode"] == "processor":
        proc = ConfigurableMessageProcessor(time_function=now, message_prefix=prefix)
    for op in c["ops"]:
        if op[0] == "wait":
            clock[0] += op[1]
        elif op[0] in ("ms", "many"):
            name = op[1]
            vs = [op[2]]
            if op[0] == "many":
                vs = [(i * 7919 + op[3]) % 1000 / 4.0 for i in range(op[2])]
            for v in vs:
                if c["mode"] == "direct":
                    if name not in objs:
                        objs[name] = TimerMetricReporter(name, now, prefix=prefix)
                    objs[name].update(float(v))
                else:
                    proc.process("%s:%r|ms" % (name, v))
                t = timers.setdefault(name, [0, [], float(now())])
                t[0] += 1
                if v >= 0:
                    t[1].append(float(v))
        else:
            if c["mode"] == "direct":
                ts = clock[0]
                got = [x for n in objs for x in objs[n].report(ts)]
            else:
                ts = int(clock[0])
                got = [x for x in proc.flush() if not x[0].startswith(proc.internal_metrics_prefix)]
            got = dict((g[0], g) for g in got)
            same(len(got), 8 * len(timers), "number of points")
            for name, t in timers.items():
                mn, mx, mean, sd = stats(t[1])
                rate = 0
                if ts > t[2]:
                    rate = len(t[1]) / float(ts - t[2])
                for k, v in (("min", mn), ("max", mx), ("mean", mean), ("stddev", sd), ("count", t[0]), ("rate", rate)):
                    key = dot + name + "." + k
                    check(key in got, "%s is not reported", key)
                    g = got[key]
                    same(g[2], ts, "timestamp of " + key)
                    v = float(v)
                    check(abs(g[1] - v) <= 2e-6 + 1e-9 * abs(v) + (k == "stddev" and 1e-9 * float(mx) or 0), "%s: got %r, expected %r", key, g[1], v)
                    check(g[1] == round(g[1], 6), "%s: %r has more than 6 decimals", key, g[1])
                t[1] = []
                t[2] = float(ts)
