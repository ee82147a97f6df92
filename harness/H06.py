"""Random histories of meters: directly and through both processors, against a running total per meter."""
from hlib import check, close, same
from txstatsd.metrics.metermetric import MeterMetricReporter
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor

RULE = "random marks and reports at random times (also repeated and fractional) of 1-3 meters; non-trivial with two reports and a mark"


def cases(rng, tier):
    while True:
        mode = rng.choice(["direct", "compliant", "configurable", "configurable"])
        ops = []
        for _ in range(rng.randint(2, 16)):
            r = rng.random()
            if r < 0.5:
                v = rng.choice([rng.randint(0, 20), rng.randint(-5, 300), rng.randint(0, 1000) / 8.0, 0.1, 1e-7, 4e-7, 12345678.123456789])
                ops.append(["mark", rng.choice(["a", "b.c", "d"]), v])
            elif r < 0.7:
                ops.append(["wait", rng.choice([0, 1, 10, 0.5, 0.25, 0.125, 7, 60])])
            else:
                ops.append(["report"])
        yield {"mode": mode, "start": rng.choice([0, 100, 100.75, 42.5]), "prefix": rng.choice(["", "pre", "x.y"]), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("report") > 1 and "mark" in k


def run(c):
    clock = [c["start"]]
    now = lambda: clock[0]
    meters = {}
    if c["mode"] == "direct":
        objs = {}
        prefix = c["prefix"]
    elif c["mode"] == "compliant":
        proc = MessageProcessor(time_function=now)
        prefix = "stats.meter"
    else:
        proc = ConfigurableMessageProcessor(time_function=now, message_prefix=c["prefix"])
        prefix = c["prefix"]
    dot = prefix and prefix + "." or ""
    for op in c["ops"]:
        if op[0] == "wait":
            clock[0] += op[1]
        elif op[0] == "mark":
            _, name, v = op
            if c["mode"] == "direct":
                if name not in objs:
                    objs[name] = MeterMetricReporter(name, now, prefix=prefix)
                objs[name].mark(v)
            else:
                proc.process("%s:%r|m" % (name, v))
            m = meters.setdefault(name, [0, 0, now()])
            m[0] += v
            m[1] += v
        else:
            if c["mode"] == "direct":
                ts = clock[0]
                got = [x for n in objs for x in objs[n].report(ts)]
            else:
                ts = int(clock[0])
                got = [x for x in proc.flush() if x[0].endswith((".count", ".rate"))
                       and not x[0].startswith(proc.internal_metrics_prefix + "flush.")
                       and not x[0].startswith(proc.internal_metrics_prefix + "receive.")]
            want = []
            for name, m in meters.items():
                if ts > m[2]:
                    want.append((dot + name + ".count", m[0], ts))
                    want.append((dot + name + ".rate", m[1] / float(ts - m[2]), ts))
                    m[1] = 0
                m[2] = ts
            got, want = sorted(got), sorted(want)
            same([(a, t) for a, b, t in got], [(a, t) for a, b, t in want], "what is reported")
            for g, w in zip(got, want):
                check(abs(g[1] - w[1]) <= 5.2e-7 + 1e-14 * abs(w[1]), "%s: got %r, expected %r", w[0], g[1], w[1])
                check(g[1] == round(g[1], 6), "%s: %r is not rounded to 6 decimals", w[0], g[1])
