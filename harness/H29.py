"""Random flush intervals and lives of the service (real LoopingCall on a simulated clock): when it flushes, with what interval."""
from hlib import check, same
from twisted.internet import defer, task
from twisted.python import log
from txstatsd import service

RULE = "random intervals (also below a second and not a multiple of one), starts, stops and flushes that fail, on a simulated clock; non-trivial when started with an interval that is no whole number of seconds and stopped"
INTERVALS = [1, 7, 100, 250, 500, 999, 1000, 1001, 1500, 2000, 2750, 10000, 60000]


class Quiet(object):
    def write(self, text):
        pass
    flush = close = lambda self: None


log.DefaultObserver.stderr = Quiet()


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 6)):
            ops.append(rng.choice([["start"], ["stop"], ["wait", rng.randint(1, 9)], ["wait", rng.randint(1, 9)]]))
        yield {"interval": rng.choice(INTERVALS + [rng.randint(1, 5000)]), "ops": ops, "fails": sorted(rng.sample(range(12), rng.choice([0, 0, 1, 3]))),
               "slow": sorted(rng.sample(range(12), rng.choice([0, 0, 1, 3]))), "breaks": rng.random() < 0.3}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return c["interval"] % 1000 != 0 and "start" in k and "wait" in k[k.index("start"):]


def valid(c):
    return c["interval"] > 0 and all(len(o) == {"start": 1, "stop": 1, "wait": 2}.get(o[0]) for o in c["ops"])


class Turn(object):
    def cancel(self):
        pass


def run(c):
    clock, flushes, turns, waits = task.Clock(), [], [], []
    real = task.Cooperator

    class Processor(object):
        def flush(self, **k):
            flushes.append((clock.seconds(), k))
            n = len(flushes)
            if n - 1 in c["fails"]:
                raise ValueError("this flush fails")
            yield "metric", n, 0

    class Carbon(object):
        def sendDatapoint(self, metric, datapoint):
            if datapoint[1] - 1 in c["slow"]:
                waits.append(defer.Deferred())
                return waits[-1]

    def schedule(f):
        turns.append(f)
        return Turn()
    task.Cooperator = lambda *a, **k: real(terminationPredicateFactory=lambda: lambda: True, scheduler=schedule)
    try:
        s = service.StatsDService(Carbon(), Processor(), c["interval"], clock=clock)
    finally:
        task.Cooperator = real
    step = c["interval"] / 1000.0
    running = False

    def move(part):
        clock.advance(step * part)
        n = 0
        while turns:
            turns.pop(0)()
            n += 1
            check(n < 1000, "a flush does not end")
    for op in c["ops"]:
        n = len(flushes)
        if op[0] == "start":
            if not running:
                s.startService()
                running = True
                move(0.5)       # from here on, always half-way between two flushes
                same(len(flushes), n, "flushes in the first half of the first interval")
        elif op[0] == "stop":
            s.stopService()
            running = False
        else:
            for i in range(op[1]):
                move(1)
                same(len(flushes) - n, running and i + 1 or 0, "flushes in %d intervals of %d ms" % (i + 1, c["interval"]))
    for t, k in flushes:
        same(k, {"interval": c["interval"]}, "what a flush is given")
    if running:
        s.stopService()
    n = len(flushes)
    for d in waits:
        (d.errback if c["breaks"] else d.callback)(RuntimeError("lost") if c["breaks"] else None)
    for i in range(4):
        move(0.6)
    same(len(flushes), n, "flushes after the end")
    same(clock.getDelayedCalls(), [], "calls still to come after the end")
