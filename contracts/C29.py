"""The flushing loop: any interval in milliseconds, start and stop from any state, whatever the flush does."""
import z3
from pyded.core import Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *
from contracts import C28

S = "txstatsd.service:"
SERVICE = S + "StatsDService"
FUNCTIONS = ["StatsDService.__init__/flushProcessor/startService/stopService", "createService (the intervals)"]
TRUSTED = ["twisted: LoopingCall(f).start(interval, now) calls f every interval seconds, from now on or after the first interval, as long as f raises nothing and returns no Deferred that fails; "
           "stop() ends that, and may be called while it runs only", "twisted: Cooperator.coiterate(g) runs g step by step later on, and raises nothing",
           "twisted: a service added to a started parent is started with it and stopped with it"]
ASSUMPTIONS = ["the flush interval is a positive whole number of milliseconds"]


class Loop(object):
    """twisted's LoopingCall and Cooperator."""

    def __init__(self, p):
        self.p, self.loops, self.works = p, [], p.trace()
        e = p.e
        p.external("twisted.internet.task.LoopingCall", lambda e, a, k: self.loop(a, k))
        p.external("twisted.internet.task.Cooperator", lambda e, a, k: p.stub("cooperator", {"coiterate": Builtin("coiterate", self.work), "cooperate": Builtin("cooperate", self.work)}))
        e.ext_classes["twisted.application.service.Service"] = {
            "running": 0, "startService": Builtin("startService", lambda e, a, k: p.set(a[0], "running", 1)), "stopService": Builtin("stopService", lambda e, a, k: p.set(a[0], "running", 0))}

    def work(self, e, a, k):
        e.list_append(self.works, a[0])
        return a_deferred(self.p)

    def loop(self, a, k):
        p = self.p
        x = {"f": a[0], "args": a[1:], "kw": k, "events": [], "running": False, "clock": None}

        def start(e, a, k):
            p.decided(not x["running"], "a loop that runs is not started", "syntactic")
            x["running"] = stub.attrs["running"] = True
            x["events"].append(("start", k["interval"] if "interval" in k else a[0], k["now"] if "now" in k else a[1] if len(a) > 1 else True))
            return a_deferred(p)

        def stop(e, a, k):
            p.decided(x["running"], "a loop that does not run is not stopped", "syntactic")
            x["running"] = stub.attrs["running"] = False
            x["events"].append(("stop",))
        stub = p.stub("loop", {"start": Builtin("start", start), "stop": Builtin("stop", stop), "running": False, "=": lambda e, n, v: x.__setitem__(n, v)})
        x["stub"] = stub
        self.loops.append(x)
        return stub


def service(p, clocks=True):
    w = Loop(p)
    interval = p.int("interval")
    p.assume(interval.t > 0)
    clock = p.stub("clock") if clocks and p.e.choose(2) else None
    w.flushed = p.trace()
    w.client = p.stub("carbon", {"sendDatapoint": Builtin("sendDatapoint", lambda e, a, k: None)})
    proc = p.stub("processor", {"flush": Builtin("flush", lambda e, a, k: (e.list_append(w.flushed, (tuple(a), tuple(sorted(k.items())))), p.list())[1])})
    s = p.no_raise(lambda: p.new(SERVICE, w.client, proc, interval, **({"clock": clock} if clock else {})))
    p.decided(len(w.loops) == 1, "one loop flushes", "identity", repr(w.loops))
    if len(w.loops) != 1:
        from pyded.proof import PathEnd
        raise PathEnd()
    x = w.loops[0]
    p.decided(x["clock"] is clock, "by the clock given, or else the reactor's", "identity")
    p.decided(x["events"] == [], "and only from the service's start", "syntactic")
    return w, s, x, interval


def started(p, event, interval):
    p.decided(event[0] == "start", "the loop is started", "syntactic", repr(event))
    if event[0] == "start":
        p.prove(zr(event[1]) == z3.ToReal(interval.t) / 1000, "every so many milliseconds as configured, not rounded to whole seconds")
        p.prove(z3.Not(p.e.cond_of(event[2])) if isinstance(event[2], Sym) else z3.BoolVal(not event[2]), "the first time one interval after the start")


@section("StatsDService.startService and stopService")
def lifecycle(p):
    """Any number of starts and stops: the loop runs exactly while the service does."""
    def one():
        w, s, x, interval = service(p)
        if p.e.choose(2):
            p.no_raise(lambda: p.m(s, "stopService"), "stopping a service that does not run")
            p.decided(x["events"] == [], "does nothing", "syntactic")
        for i in range(2):
            del x["events"][:]
            p.no_raise(lambda: p.m(s, "startService"))
            p.decided(len(x["events"]) == 1, "starting the service starts its loop, once", "syntactic", repr(x["events"]))
            if len(x["events"]) != 1:
                return
            started(p, x["events"][0], interval)
            p.eq(w.flushed, p.list(), "nothing is flushed at once")
            if p.e.choose(2):
                p.no_raise(lambda: p.call(x["f"], *x["args"], **x["kw"]))
            del x["events"][:]
            if p.e.choose(2):
                x["running"] = x["stub"].attrs["running"] = False        # the loop has ended by itself
            was = x["running"]
            p.no_raise(lambda: p.m(s, "stopService"))
            p.decided(x["events"] == ([("stop",)] if was else []), "stopping the service stops its loop, once", "syntactic", repr(x["events"]))
            p.decided(not x["running"] and len(w.loops) == 1, "no further flush begins", "syntactic")
    p.paths(one)


@section("StatsDService.flushProcessor")
def turns(p):
    """Each turn of the loop is one flush, with the configured interval, and a flush that fails never ends the loop."""
    def one():
        w, s, x, interval = service(p, False)
        p.no_raise(lambda: p.m(s, "startService"))
        for i in range(1, 3):
            r = p.no_raise(lambda: p.call(x["f"], *x["args"], **x["kw"]), "a turn of the loop raises nothing")
            p.decided(r is None, "and gives it no Deferred to wait for, or to fail with", "syntactic", repr(r))
            p.eq(p.e.list_len(w.works), i, "each turn begins one flush")
            p.e.iterate(p.e.list_get(w.works, i - 1), lambda x: None)
            p.eq(p.e.list_len(w.flushed), i, "which flushes once")
            p.eq(p.e.list_get(w.flushed, i - 1), ((), (("interval", interval),)), "with the configured interval for the rates")
        p.decided([q[0] for q in x["events"]] == ["start"], "and leaves the loop running", "syntactic", repr(x["events"]))
    p.paths(one)


@section("createService: the intervals")
def wired(p):
    """The service and the report of the carbon client have the interval configured."""
    def one():
        w = C28.Wiring(p)
        scheduled = []
        make = w.make

        def made(name, params, a, k, attrs=None):
            s = make(name, params, a, k, attrs)
            if name == "ReportingService":
                s.attrs["schedule"] = Builtin("schedule", lambda e, a, k: scheduled.append((tuple(a), k)))
            return s
        w.make = made
        w.opts["statsd-compliance"] = p.e.choose(2)
        interval = w.opts["flush-interval"]
        p.assume(interval.t > 0)
        w.run()
        p.eq(w.one("StatsDService").kw.get("flush_interval"), interval, "the service flushes at the interval configured")
        f = p.get(S + "report_client_manager_stats")
        mine = [dict(zip(("function", "interval", "report_function"), a), **k) for a, k in scheduled]
        mine = [x for x in mine if x["function"] is f or x["function"] == f]
        p.decided(len(mine) == 1, "the carbon client's statistics are scheduled once", "identity", repr(scheduled))
        if len(mine) == 1:
            p.prove(zr(mine[0]["interval"]) == z3.ToReal(interval.t) / 1000, "as often as the flush, not rounded to whole seconds")
    p.paths(one)
