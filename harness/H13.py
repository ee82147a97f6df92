"""Random sequences of client calls on one connection against the line each must send."""
import random
from hlib import check, same
from txstatsd.metrics.metrics import Metrics
from txstatsd.metrics.extendedmetrics import ExtendedMetrics
from txstatsd.metrics.gaugemetric import GaugeMetric
from txstatsd.metrics.metermetric import MeterMetric
from txstatsd.metrics.countermetric import CounterMetric
from txstatsd.metrics.timermetric import TimerMetric

RULE = "random calls (each name used for one kind, its rate that of its first use) with integer, negative, fractional and text values and rates around 1; non-trivial with two calls"
RATES = [1, 1, 1, 0.5, 0.1, 0.999, 1.0, 2, 1.5, 0, 0.0, 1e-05, 0.25]
VALUES = [0, 1, -1, 5, 42, 3.5, -2.25, 0.1, 10 ** 12, 1e-3]


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 8)):
            kind = rng.choice(["gauge", "meter", "increment", "increment", "decrement", "timing", "timing0", "report", "sli", "sli_error", "clear"])
            name = rng.choice(["a", "b.c", "x_y-z"]) + "." + {"decrement": "increment", "timing0": "timing", "sli_error": "sli"}.get(kind, kind)
            if kind == "clear":
                name = rng.choice(["a", "b.c"]) + "." + rng.choice(["increment", "gauge"])
            seed = rng.randint(0, 9999)
            rate = rng.choice([None] + RATES + [random.Random(seed).random()])      # (the last: just what will be drawn)
            ops.append([kind, name, rng.choice(VALUES), rate, rng.choice([None, None, 3, "x", 0, 1, 1.0, ""]), rng.choice(["pd", "d", "zz"]), seed])
        yield {"ext": rng.random() < 0.5, "ns": rng.choice(["", None, "ns", "my.ns"]), "connected": rng.random() < 0.95, "ops": ops,
               "direct": rng.random() < 0.15}


def nontrivial(c):
    return len(c["ops"]) > 1


class Connection(object):
    def __init__(self):
        self.sent = []

    def write(self, data):
        self.sent.append(data)


def run(c):
    conn = Connection()
    if c["direct"]:
        return direct(c, conn)
    ns = c["ns"]
    m = (c["ext"] and ExtendedMetrics or Metrics)(c["connected"] and conn or None, ns)
    rates, totals, types = {}, {}, {}
    for kind, name, value, rate, extra, mtype, seed in c["ops"]:
        full = ns and ns + "." + name or name
        kw = {}
        if rate is not None and kind in ("gauge", "meter", "increment", "decrement", "timing", "timing0"):
            kw["sample_rate"] = rate
        random.seed(seed)
        del conn.sent[:]
        if kind == "clear":
            m.clear(name)
            want = []
            if full in totals:
                if c["ext"] and name.endswith("increment"):
                    totals[full] = 0
                    want = ["%s:0|c" % full]
                    if rates[full] < 1:
                        want = None         # what clear() sends is subject to sampling too
            if c["connected"] and want is not None:
                same(conn.sent, want, "clear")
            continue
        first = full not in rates
        if first:
            rates[full] = kw.get("sample_rate", 1)
        r = rates[full]
        if kind == "gauge":
            m.gauge(name, value, **kw)
            data = "%s|g" % value
        elif kind == "meter":
            m.meter(name, value, **kw)
            data = "%s|m" % value
        elif kind in ("increment", "decrement"):
            getattr(m, kind)(name, value, **kw)
            d = kind == "increment" and value or -value
            totals[full] = totals.get(full, 0) + d
            data = "%s|c" % (c["ext"] and totals[full] or not c["ext"] and d or 0)
            if c["ext"]:
                data = "%s|c" % totals[full]
            else:
                data = "%s|c" % (kind == "increment" and value or -value,)
        elif kind == "timing":
            m.timing(name, value, **kw)
            data = "%s|ms" % (value * 1000)
        elif kind == "timing0":
            m.reset_timing()
            m.timing(name, **kw)
            data = None
        elif kind == "report":
            r = 1
            t = types.setdefault(full, mtype)
            if extra is None:
                m.report(name, value, t)
                data = "%s|%s" % (value, t)
            else:
                m.report(name, value, t, extra)
                data = "%s|%s|%s" % (value, t, extra)
        elif kind == "sli":
            r = 1
            if extra is None:
                m.sli(name, value)
                data = "%s|sli" % value
            else:
                m.sli(name, value, extra)
                data = "%s|sli|%s" % (value, extra)
        else:
            r = 1
            m.sli_error(name)
            data = "error|sli"
        expect(conn, c["connected"], full, data, r, seed, kind)


def expect(conn, connected, full, data, r, seed, kind):
    send = connected
    suffix = ""
    if r < 1:
        if random.Random(seed).random() > r:
            send = False
        suffix = "|@%s" % (r,)
    if not send:
        same(conn.sent, [], "%s: sent although sampled away or not connected" % kind)
        return
    same(len(conn.sent), 1, "%s: number of lines sent" % kind)
    check(isinstance(conn.sent[0], str), "sent %r", conn.sent[0])
    if data is None:
        got = conn.sent[0]
        check(got.startswith(full + ":") and got.endswith("|ms" + suffix), "timing sent %r", got)
        v = float(got[len(full) + 1:].split("|")[0])
        check(-1 <= v <= 20000, "elapsed %r ms", v)
    else:
        same(conn.sent[0], full + ":" + data + suffix, kind)


def direct(c, conn):
    objs = {}
    total = {}
    for kind, name, value, rate, extra, mtype, seed in c["ops"]:
        if rate is None:
            rate = 1
        if kind not in ("gauge", "meter", "increment", "decrement", "timing"):
            continue
        if name not in objs:
            cls = {"gauge": GaugeMetric, "meter": MeterMetric, "timing": TimerMetric}.get(kind, CounterMetric)
            objs[name] = cls(conn, name, rate), rate
        o, r = objs[name]
        random.seed(seed)
        del conn.sent[:]
        if kind in ("increment", "decrement"):
            getattr(o, kind)(value)
            total[name] = total.get(name, 0) + (kind == "increment" and value or -value)
            data = "%s|c" % total[name]
            same(o.count(), total[name], "count()")
        else:
            o.mark(value)
            data = {"gauge": "%s|g" % value, "meter": "%s|m" % value, "timing": "%s|ms" % (value * 1000)}[kind]
        expect(conn, True, name, data, r, seed, kind)
