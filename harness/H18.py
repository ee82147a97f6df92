"""Random messages of all kinds and flushes of the running service (real LoopingCall and Cooperator on a fake clock), with messages and
clock ticks between the steps: what the carbon client gets against what the processor yields, and the self-statistics against counts."""
from hlib import check, same
from twisted.internet import task
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.router import Router
from txstatsd import service

RULE = "random messages of all kinds, 1-4 flushes of the running service, messages and clock moves between its steps; non-trivial with two kinds and two flushes"
KINDS = [("c", "c"), ("t", "ms"), ("g", "g"), ("m", "m"), ("s", "sli")]
NAMES = {"c": "counter", "t": "timer", "g": "gauge", "m": "meter", "s": "plugin"}


def message(rng):
    k, typ = rng.choice(KINDS)
    if rng.random() < 0.05:
        typ = rng.choice(["zz", "C", ""])       # of no type: discarded, and not counted
    return "%s%d:%d|%s" % (k, rng.randint(1, 4), rng.randint(-3, 9), typ)


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops += [["msg", message(rng)] for _ in range(rng.choice([0, 1, 3, 8]))]
            ops.append(["flush", [[rng.randint(0, 30), message(rng)] for _ in range(rng.choice([0, 0, 2, 5]))], rng.random() < 0.5])
        yield {"mode": rng.choice(["compliant", "configurable", "prefixed"]), "router": rng.random() < 0.3, "interval": rng.choice([10000, 1000, 60000, 2500]), "ops": ops}


def nontrivial(c):
    return len([o for o in c["ops"] if o[0] == "flush"]) > 1 and len(set(o[1][0] for o in c["ops"] if o[0] == "msg")) > 1


def valid(c):
    return c["mode"] in ("compliant", "configurable", "prefixed") and all(
        o and {"msg": len(o) == 2 and o[1].count("|") == 1 and o[1].count(":") == 1, "flush": len(o) == 3 and all(len(d) == 2 for d in o[1])}.get(o[0]) for o in c["ops"])


class Carbon(object):
    def __init__(self):
        self.got = []

    def sendDatapoint(self, metric, datapoint):
        self.got.append((metric, datapoint))


class Spy(object):
    """Records what the processor flushes."""
    def __init__(self, inner):
        self.inner = inner
        self.out = []
        self.intervals = []

    def flush(self, *a, **k):
        self.intervals.append((a, k))
        for x in self.inner.flush(*a, **k):
            self.out.append(x)
            yield x

    def process(self, m):
        return self.inner.process(m)


class Turn(object):
    def __init__(self, f):
        self.f = f

    def cancel(self):
        self.f = None


def run(c):
    now = [1000.75]
    sli = SLIMetricFactory()
    sli.configure({})
    tf = lambda: now[0]
    if c["mode"] == "compliant":
        proc = MessageProcessor(time_function=tf, plugins=[sli])
        internal = "statsd."
    elif c["mode"] == "configurable":
        proc = ConfigurableMessageProcessor(time_function=tf, plugins=[sli])
        internal = "statsd."
    else:
        proc = ConfigurableMessageProcessor(time_function=tf, plugins=[sli], message_prefix="pre", internal_metrics_prefix="pre.host.")
        internal = "pre.host."
    spy = Spy(Router(proc, "") if c["router"] else proc)
    carbon, clock, turns = Carbon(), task.Clock(), []
    real = task.Cooperator

    def schedule(f):
        t = Turn(f)
        turns.append(t)
        return t
    task.Cooperator = lambda *a, **k: real(terminationPredicateFactory=lambda: lambda: True, scheduler=schedule)
    try:
        s = service.StatsDService(carbon, spy, c["interval"], clock=clock)
    finally:
        task.Cooperator = real
    s.startService()
    pending = {}

    def send(m):
        proc.process(m)
        t = m.split("|")[1]
        if t not in dict(KINDS).values():
            return
        pending[t] = pending.get(t, 0) + 1
    for op in c["ops"]:
        if op[0] == "msg":
            send(op[1])
            continue
        now[0] += c["interval"] / 1000.0
        del carbon.got[:], spy.out[:], spy.intervals[:]
        before = dict(pending)
        began = int(now[0])
        clock.advance(c["interval"] / 1000.0)
        step = 0
        while turns:
            for at, m in op[1]:
                if at == step:
                    send(m)
            if op[2] and step:
                now[0] += 0.25
            f = turns.pop(0).f
            if f is not None:
                f()
            step += 1
            check(step < 10000, "a flush does not end")
        same(spy.intervals, [((), {"interval": c["interval"]})], "calls of flush")
        same(carbon.got, [(m, (ts, v)) for m, v, ts in spy.out], "what the carbon client got")
        same(set(ts for m, v, ts in spy.out), set([began]), "timestamps of a flush")
        stats, kinds = {}, dict((k, set()) for k in NAMES)
        gauges = 0
        for m, v, ts in spy.out:
            if m.startswith(internal):
                check(m not in stats, "%s reported twice", m)
                stats[m[len(internal):]] = v
            else:
                name = [x for x in m.split(".") if len(x) == 2 and x[0] in kinds and x[1].isdigit()][0]
                kinds[name[0]].add(name)
                gauges += name[0] == "g"
        num = dict((NAMES[k], len(kinds[k])) for k in kinds)
        num["gauge"] = gauges
        if any("|m" in d[1] and "|ms" not in d[1] for d in op[1]):
            # a meter first seen during this very second is flushed, but has nothing to report yet
            n = stats.get("flush.meter.count", 0)
            check(num["meter"] <= n <= num["meter"] + len(op[1]), "flush.meter.count: %r with %d reported", n, num["meter"])
            num["meter"] = n
        for k in sorted(num):
            same(stats.get("flush.%s.count" % k), num[k], "flush.%s.count" % k)
        same(stats.get("numStats"), sum(num.values()), "numStats")
        for t in sorted(pending):
            got = stats.get("receive.%s.count" % t, 0)
            if op[1]:
                check(before.get(t, 0) <= got <= pending[t], "receive.%s.count: %r, with %r before the flush and %r after", t, got, before.get(t, 0), pending[t])
            else:
                same(got, pending[t], "receive.%s.count" % t)
            pending[t] -= got
        for k in stats:
            if k.startswith("receive.") and k.endswith(".count"):
                check(k.split(".")[1] in pending, "%s for messages never sent", k)
            if k.endswith(".duration"):
                check(stats[k] >= 0, "%s: %r", k, stats[k])
    s.stopService()
