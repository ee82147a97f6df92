"""ReportingService: one run of any scheduled function (returning any metrics, or failing, at once or later), and scheduling,
starting and stopping with any number of scheduled functions."""
import z3
from pyded.core import Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *

R = "txstatsd.report:ReportingService"
SERVICE = "twisted.application.service.Service"
FUNCTIONS = ["ReportingService.__init__/schedule/wrapped (report_metrics, wrapper)/startService/stopService"]
TRUSTED = ["twisted: maybeDeferred(f) calls f once and gives a Deferred of its outcome; a Deferred runs its callbacks and errbacks in the order added, each with the outcome of the one before, when its result is there",
           "twisted: LoopingCall(f).start(interval, now) calls f every interval seconds, from now on or after the first interval, as long as the Deferreds it returns do not fail; stop() ends that, and a loop is started again only when its last run is over (see the known finding)",
           "twisted: Service.startService and stopService set `running`", "log.err raises nothing", "functools.wraps only copies attributes"]


class Deferred(object):
    """twisted's Deferred: its outcome, and the callbacks still to run."""

    def __init__(self, p):
        self.p, self.chain, self.fired = p, [], False
        add = lambda ok, bad: Builtin("add", lambda e, a, k: self.add(*((a[0] if ok else None), (a[ok] if bad else None), list(a[ok + bad:]), k)))
        self.stub = p.stub("deferred", {"addCallback": add(1, 0), "addErrback": add(0, 1), "addCallbacks": add(1, 1),
                                        "addBoth": Builtin("addBoth", lambda e, a, k: self.add(a[0], a[0], list(a[1:]), k))})

    def add(self, cb, eb, args, kw):
        self.chain.append((cb, eb, args, kw))
        if self.fired:
            self.run()
        return self.stub

    def fire(self, ok, value):
        self.fired, self.ok, self.value = True, ok, value
        self.run()

    def run(self):
        while self.chain:
            cb, eb, args, kw = self.chain.pop(0)
            f = cb if self.ok else eb
            if f is None:
                continue
            try:
                self.value = self.p.e.call(f, [self.value] + args, kw)
                self.ok = True
            except PyExc as x:
                self.ok, self.value = False, self.p.stub("failure")


class World(object):
    def __init__(self, p):
        self.p = p
        e = p.e
        e.ext_classes[SERVICE] = {"running": 0, "startService": Builtin("startService", lambda e, a, k: p.set(a[0], "running", 1)),
                                  "stopService": Builtin("stopService", lambda e, a, k: p.set(a[0], "running", 0))}
        self.logged = p.trace()
        p.external("twisted.python.log.err", p.recorder(self.logged).fn)
        self.loops, self.events, self.attrs = [], [], []
        p.external("twisted.internet.task.LoopingCall", lambda e, a, k: self.loop(a[0]))
        self.deferreds = []
        p.external("twisted.internet.defer.maybeDeferred", self.maybe)

    def loop(self, f):
        events = []
        n = len(self.loops)
        self.attrs.append({})
        self.loops.append(f)
        self.events.append(events)
        start = lambda e, a, k: events.append(("start", k["interval"] if "interval" in k else a[0],
                                               k["now"] if "now" in k else a[1] if len(a) > 1 else True))
        return self.p.stub("loop", {"start": Builtin("start", start), "=": lambda e, name, v: self.attrs[n].update({name: v}),
                                    "stop": Builtin("stop", lambda e, a, k: events.append(("stop",)))})

    def maybe(self, e, a, k):
        d = Deferred(self.p)
        self.deferreds.append(d)
        try:
            v = e.call(a[0], list(a[1:]), k)
        except PyExc as x:
            d.fire(False, self.p.stub("failure"))
        else:
            if v is self.later:
                self.pending = d
            else:
                d.fire(True, v)
        return d.stub

    later = Stub("another deferred", {})


@section("ReportingService.wrapped: one run of a scheduled function")
def run(p):
    def one():
        w = World(p)
        e = p.e
        instance = [lambda: p.str("instance"), lambda: ""][e.choose(2)]()
        o = p.no_raise(lambda: p.new(R, *([instance] if instance != "" or e.choose(2) else [])))
        V = z3.Function("metric_value", z3.IntSort(), z3.RealSort())
        metrics = e.sym_dict("metrics", lambda e, i, k: Sym("float", V(zi(i))), scalar="float")
        calls = p.trace()
        how = ["returns", "fails", "later", "later fails"][e.choose(4)]
        if not how.endswith("fails") and e.choose(2):
            metrics = p.dict([(p.str("metric"), [None, "", False, p.str("text")][e.choose(4)])])     # values that are no numbers

        def work(e, a, k):
            e.list_append(calls, 1)
            if how == "fails":
                e.throw("ValueError")
            return metrics if how == "returns" else w.later
        f = p.stub("function", {"__name__": "work"} if e.choose(2) else {}, call=work)
        reported = p.trace()
        report = p.recorder(reported) if e.choose(2) else None
        p.no_raise(lambda: p.m(o, "schedule", f, p.int("interval"), report))
        p.prove(len(w.loops) == 1, "a scheduled function is called by one loop")
        p.eq(calls, p.list(), "and not by schedule itself")
        d = p.no_raise(lambda: p.call(w.loops[0]))
        p.eq(calls, p.list(1), "each turn of the loop calls it once")
        if how.startswith("later"):
            p.eq(reported, p.list(), "nothing is reported before its result is there")
            w.pending.fire(how == "later", metrics if how == "later" else p.stub("failure"))
        want = p.trace()
        if how in ("returns", "later") and report is not None:
            named = instance != "" and e.branch(e.truth(instance))
            e.iterate_segs(e.dict_segs(metrics, "items"), lambda kv: e.list_append(want, (cat(p, instance, ".", kv[0]) if named else kv[0], kv[1])))
        p.eq(reported, want, "every metric returned is reported once with its value, under its own name or <instance name>.<name>")
        p.eq(e.list_len(w.logged), 1 if how.endswith("fails") else 0, "an exception is logged, once; nothing else is")
        p.prove(len(w.deferreds) == 1 and d is w.deferreds[0].stub, "the loop waits for this run")
        p.prove(w.deferreds[0].fired and w.deferreds[0].ok, "and never sees a failure, which would end it")
    p.paths(one)


@section("ReportingService.wrapped: reporting fails")
def failing(p):
    def one():
        w = World(p)
        e = p.e
        o = p.no_raise(lambda: p.new(R, p.str("instance")))
        n = e.choose(4)
        metrics = p.dict([("m%d" % i, p.float("value")) for i in range(n)])
        at = e.choose(n + 1)
        count = []

        def report(e, a, k):
            count.append(1)
            if len(count) > at:
                e.throw("ValueError")
        p.no_raise(lambda: p.m(o, "schedule", p.stub("function", {}, call=lambda e, a, k: metrics), p.int("interval"), Builtin("report", report)))
        p.no_raise(lambda: p.call(w.loops[0]))
        p.eq(e.list_len(w.logged), 1 if at < n else 0, "an exception in reporting is logged, once")
        p.prove(w.deferreds[0].fired and w.deferreds[0].ok, "and never ends the loop")
    p.paths(one)


@section("ReportingService.schedule/startService/stopService")
def schedule(p):
    def one():
        w = World(p)
        e = p.e
        clock = [None, p.stub("clock")][e.choose(2)]
        o = p.no_raise(lambda: p.new(R, **({"clock": clock} if clock else {})))
        before, after = e.choose(3), e.choose(3)
        ivs = []

        def events(want, what):
            p.prove(len(w.events) == len(ivs), "each has a loop of its own")
            for i, got in enumerate(w.events):
                p.prove(w.attrs[i].get("clock") is clock, "which runs by the service's clock")
                p.eq(p.list(*got), p.list(*want(i)), what)
        add = lambda: (ivs.append(p.int("interval")), p.no_raise(lambda: p.m(o, "schedule", p.stub("function"), ivs[-1], None)))
        for i in range(before):
            add()
        events(lambda i: [], "functions scheduled before the service starts do not run yet")
        p.no_raise(lambda: p.m(o, "startService"))
        events(lambda i: [("start", ivs[i], False)], "but run from its start at their interval")
        for i in range(after):
            add()
        starts = lambda i: [("start", ivs[i], i >= before)]
        events(starts, "functions scheduled while the service runs start at once")
        p.no_raise(lambda: p.m(o, "stopService"))
        events(lambda i: starts(i) + [("stop",)], "all stop when it stops")
        p.eq(p.a(o, "running"), 0, "the service has stopped")
        add()
        events(lambda i: starts(i) + [("stop",)] if i < before + after else [], "and what is scheduled then does not run yet")
    p.paths(one)


@section("ReportingService.startService/stopService, any number of scheduled functions")
def many(p):
    def one():
        w = World(p)
        e = p.e
        o = p.no_raise(lambda: p.new(R))
        events = p.trace()
        I = z3.Function("interval_of", z3.IntSort(), z3.IntSort())
        rec = lambda tag, i, a: e.list_append(events, (tag, Sym("int", zi(i))) + a)
        start = lambda i: Builtin("start", lambda e, a, k: rec("start", i, (k["interval"] if "interval" in k else a[0],
                                                                           k["now"] if "now" in k else a[1] if len(a) > 1 else True)))
        loop = lambda i: p.stub("loop", {"start": start(i), "stop": Builtin("stop", lambda e, a, k: rec("stop", i, ()))})
        b = p.base("tasks", None, mk=lambda e, i: (loop(i), Sym("int", I(zi(i)))))
        p.set(o, "tasks", p.listof(b))
        going = e.choose(2)
        p.set(o, "running", going)
        p.no_raise(lambda: p.m(o, ["startService", "stopService"][going]))
        want = p.trace()
        index = p.base("index", "int", n=b.n, mk=lambda e, i: Sym("int", zi(i)))
        e.iterate(p.listof(index), lambda i: e.list_append(want, ("stop", i) if going else ("start", i, Sym("int", I(zi(i))), False)))
        p.eq(events, want, ["every loop is started once, at its interval, and not at once", "every loop is stopped once"][going])
        p.eq(p.a(o, "running"), 1 - going, "the service is started or stopped")
    p.paths(one)
