"""Random schedules on a simulated clock: what is reported when, against a plain simulation."""
from hlib import check, same
from twisted.internet import defer, task
from twisted.python import log
from txstatsd.report import ReportingService

class Quiet(object):
    def write(self, text):
        pass
    flush = close = lambda self: None


log.DefaultObserver.stderr = Quiet()

RULE = "random functions (returning metrics at once or later, failing at once or later, reported to a failing function, unnamed) scheduled before and while the service runs, on a simulated clock; non-trivial with a failing and a good function"
KINDS = ["ok", "ok", "ok", "fail", "later", "laterfail", "reportfail", "noreport", "partial"]


def cases(rng, tier):
    while True:
        fs = []
        for i in range(rng.randint(1, 5)):
            fs.append([rng.choice(KINDS), rng.randint(1, 4), rng.randint(0, 3), rng.choice([0, 0, 0, 1, 2, 5])])
        c = {"name": rng.choice(["", "host", "a.b"]), "fs": fs, "steps": rng.randint(1, 15), "after": rng.randint(0, 6), "again": rng.choice([0, 0, 5])}
        if pending(c):
            c["after"] = 1
        yield c


def pending(c):
    """It is started again while a run of before may still wait for its result (KNOWN has such a history)."""
    return c["again"] and not c["after"] and any(f[0] in ("later", "laterfail") for f in c["fs"])


KNOWN = [("a function whose result is still to come when the service is stopped, and started again before it comes, runs twice per interval from then on",
          {"name": "", "fs": [["later", 1, 3, 0]], "steps": 6, "after": 0, "again": 5})]


def nontrivial(c):
    kinds = set(f[0] for f in c["fs"])
    return "ok" in kinds and len(kinds & set(["fail", "laterfail", "reportfail"])) > 0


def valid(c):
    return all(len(f) == 4 and f[0] in KINDS for f in c["fs"]) and not pending(c)


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def run(c):
    errors = []
    observer = lambda e: e.get("isError") and errors.append(e)
    log.addObserver(observer)
    try:
        search(c, errors)
    finally:
        log.removeObserver(observer)


def search(c, errors):
    clock = task.Clock()
    s = c["name"] and ReportingService(c["name"], clock=clock) or ReportingService(clock=clock)
    called, reported, results = [], [], {}

    def make(i, kind, n):
        def result():
            results[i] = dict(((k % 3 == 1 and c["name"] and c["name"] + "." or "") + "f%d.m%d" % (i, k), [len(called) * 10 + k, 0, -1.5, 0.0][(len(called) + k) % 4]) for k in range(n))
            return dict(results[i])

        def f():
            called.append((clock.seconds(), i))
            if kind == "fail":
                raise ValueError("f%d" % i)
            if kind in ("later", "laterfail"):
                d = defer.Deferred()
                r = result()
                clock.callLater(0.5, kind == "later" and (lambda: d.callback(r)) or (lambda: d.errback(ValueError("later"))))
                return d
            return result()

        def report(name, value):
            if kind == "reportfail":
                raise KeyError(name)
            reported.append((i, name, value))
        return kind == "partial" and Callable(f) or f, kind != "noreport" and report or None

    started = {}

    def add(i, t):
        kind, interval, n, when = c["fs"][i]
        f, report = make(i, kind, n)
        s.schedule(f, interval, report)

    for i, (kind, interval, n, when) in enumerate(c["fs"]):
        if not when:
            add(i, 0)
    clock.advance(0.25)
    same(called, [], "calls before the service starts")
    s.startService()
    same(called, [], "calls when the service starts")
    at = dict((i, interval) for i, (kind, interval, n, when) in enumerate(c["fs"]) if not when)
    stop = c["steps"]
    expect, order = [], []
    for t in range(stop + c["after"] + 1):
        if t:
            del called[:], reported[:], errors[:]
            clock.advance(0.5)
            clock.advance(0.5)
        due = sorted(i for i in at if at[i] == t and t <= stop) if t else []
        for i in due:
            at[i] = t + c["fs"][i][1]
        new = [i for i, f in enumerate(c["fs"]) if f[3] and f[3] == t and t < stop]
        if t:
            same(sorted(i for _, i in called), due, "functions run in second %d" % t)
            check_reports(c, called, reported, errors, results)
        for i in new:
            del called[:], reported[:], errors[:]
            add(i, t)
            same([k for _, k in called], [i], "function scheduled while running")
            check_reports(c, called, reported, errors, results)
            at[i] = t + c["fs"][i][1]
        if t == stop:
            s.stopService()
    if not c["again"]:
        return
    # it can be started again: everything scheduled so far runs at its interval from there on
    s.startService()
    at = dict((i, c["fs"][i][1]) for i in at)
    for t in range(1, c["again"] + 1):
        del called[:], reported[:], errors[:]
        clock.advance(0.5)
        clock.advance(0.5)
        due = sorted(i for i in at if at[i] == t)
        for i in due:
            at[i] = t + c["fs"][i][1]
        same(sorted(i for _, i in called), due, "functions run in second %d after a second start" % t)
        check_reports(c, called, reported, errors, results)
    s.stopService()


def check_reports(c, called, reported, errors, results):
    """What the runs of this second gave. (A later result arrives half a second later, that is, in the next step.)"""
    for pos, (_, i) in enumerate(called):
        kind, interval, n, when = c["fs"][i]
        got = sorted(x[1:] for x in reported if x[0] == i)
        if kind in ("ok", "partial"):
            pre = c["name"] and c["name"] + "." or ""
            same(got, sorted((pre + m, v) for m, v in results[i].items()), "metrics reported for function %d" % i)
        elif kind != "later":
            same(got, [], "reported for a function that fails or is not reported (%s)" % kind)
    fails = len([1 for _, i in called if c["fs"][i][0] == "fail" or c["fs"][i][0] == "reportfail" and c["fs"][i][2]])
    late = len([1 for f in c["fs"] if f[0] == "laterfail"])
    check(fails <= len(errors) <= fails + late, "errors logged: %d, failures: %d", len(errors), fails)
