"""The client library: every reporting call, for an arbitrary table of known metrics, connection, namespace, value, rate and draw."""
import z3
from pyded.core import Sym, zi, zr
from pyded.proof import section
from contracts.common import *

M = "txstatsd.metrics."
FUNCTIONS = ["Metric.send", "Metric.write", "Metrics.fully_qualify_name", "Metrics.gauge", "Metrics.meter", "Metrics.increment",
             "Metrics.decrement", "Metrics.timing", "Metrics.report", "Metrics.sli", "Metrics.sli_error", "Metrics.reset_timing",
             "Metrics.calculate_duration", "ExtendedMetrics.increment", "ExtendedMetrics.decrement", "ExtendedMetrics.timing",
             "GaugeMetric.mark", "MeterMetric.mark", "CounterMetric.increment/decrement/count/_update", "TimerMetric.mark",
             "GenericMetric.mark"]
TRUSTED = ["str(), % formatting and unicode encoding are functions of their arguments", "random.random() is in [0, 1)"]
ASSUMPTIONS = ["a name is used for metrics of one kind; the sample rate is the one given when the name was first used (that is what the code keeps)",
               "names and values are text that encodes to UTF-8; values are integers, floats or text"]


class World(object):
    """Connection, draw and clock, all recorded."""

    def __init__(self, p):
        self.sent, self.draws = p.trace(), []
        self.conn = None
        if p.e.choose(2):
            self.conn = p.stub("connection", {"write": p.recorder(self.sent)})
        p.external("random.random", self.draw)

    def draw(self, e, a, k):
        x = e.fresh("float", "draw")
        e.assume(z3.And(x.t >= 0, x.t < 1))
        self.draws.append(x)
        return x


def text(p, v):
    """str(v)"""
    return v if not isinstance(v, Sym) or v.kind == "str" else p.e.call(p.e.builtins["str"], [v], {})


def value(p, kinds=3):
    return [lambda: p.int("value"), lambda: p.float("value"), lambda: p.str("value")][p.e.choose(kinds)]()


def expect(p, w, name, data, rate, what):
    """What one call sends: the line, or nothing when sampled away or not connected."""
    line = cat(p, name, ":", data)
    send = True
    if rate is not None and p.e.branch(p.e.lt(rate, 1)):
        p.prove(len(w.draws) == 1, what + ": one draw decides")
        send = p.e.branch(p.e.le(w.draws[0], rate)) if hasattr(p.e, "le") else not p.e.branch(p.e.lt(rate, w.draws[0]))
        line = cat(p, line, "|@", text(p, rate))
    enc = p.e.call(p.e.getattr_(line, "encode"), ["utf-8"], {})
    p.eq(w.sent, p.list((enc,)) if send and w.conn is not None else p.list(), what + ": sends exactly its line, or nothing")


def rate_of(p):
    return [lambda: p.float("rate"), lambda: p.int("rate")][p.e.choose(2)]()


def client(p, cls, mk, entry=None):
    """A client with an arbitrary table of metrics, in an arbitrary namespace; mk(connection, key, i) -> a metric."""
    w = World(p)
    ns = [lambda: p.str("namespace"), lambda: None][p.e.choose(2)]()
    o = p.new(cls, w.conn, ns)
    d = p.e.sym_dict("metrics", lambda e, i, k: mk(w, k, i), mutable=True)
    p.set(o, "_metrics", d)
    return w, o, ns, d


def full(p, ns, name):
    if ns is None:
        return name
    return dotted(p, ns, name)


def metric_table(p, path, extra=()):
    R = z3.Function("rate_of", z3.IntSort(), z3.RealSort())

    def mk(w, k, i):
        return p.e.alloc(HInst(p.get(path), dict({"connection": w.conn, "name": k, "sample_rate": Sym("float", R(zi(i)))},
                                                 **{n: f(i) for n, f in extra})))
    return mk


def reporting(cls, method, path, data, args=1, extra=(), has_rate=True):
    """One reporting method: data(p, value, state) -> (text after the name, new state)."""
    def body(p):
        def one():
            w, o, ns, d = client(p, cls, metric_table(p, path, extra))
            name = p.str("name")
            q = full(p, ns, name)
            old = p.e.dict_get(d, q)
            state = None
            if old is not None:
                rate = p.a(old, "sample_rate") if has_rate else None
                state = {n: p.a(old, n) for n, _ in extra}
            v = value(p, 2)
            other = p.str("other")
            p.assume(other.t != zs(q))
            was = p.e.dict_get(d, other)
            mode = p.e.choose(3 if has_rate else 1)
            given = rate_of(p) if mode else 1
            if mode == 0:
                p.no_raise(lambda: p.m(o, method, name, v))
            elif mode == 1:
                p.no_raise(lambda: p.m(o, method, name, v, given))
            else:
                p.no_raise(lambda: p.m(o, method, name, v, sample_rate=given))
            if old is None:
                rate = given if has_rate else None
            if old is not None:
                p.eq(p.a(old, "name"), q, "the metric found has the qualified name")
            expect(p, w, q if old is None else p.a(old, "name"), data(p, v, state), rate, method)
            now = p.e.dict_get(p.a(o, "_metrics"), q)
            p.prove(now is not None, "the metric is remembered")
            if now is not None:
                p.eq(p.a(now, "sample_rate"), 1 if rate is None else rate, "with its sample rate")
                p.eq(p.a(now, "name"), q, "and its qualified name")
                p.prove(p.a(now, "connection") is w.conn, "and the connection")
                for n, _ in extra:
                    p.eq(p.a(now, n), total(p, method, v, state), "and its running total")
            after = p.e.dict_get(p.a(o, "_metrics"), other)
            p.prove((after is None) == (was is None), "no other name is affected")
            if after is not None:
                p.same(after, was, "other metrics are kept")
        p.paths(one)
    section("%s.%s" % (cls.split(":")[1], method))(body)


def total(p, method, v, state):
    start = 0 if state is None else state["_count"]
    return p.e.binop("Add" if method == "increment" else "Sub", start, v)


def neg(p, v):
    return p.e.binop("Sub", 0, v)


METRICS, EXT = M + "metrics:Metrics", M + "extendedmetrics:ExtendedMetrics"
BASE = M + "metric:Metric"
for C in (METRICS, EXT):
    reporting(C, "gauge", M + "gaugemetric:GaugeMetric", lambda p, v, s: cat(p, text(p, v), "|g"))
    reporting(C, "meter", M + "metermetric:MeterMetric", lambda p, v, s: cat(p, text(p, v), "|m"))
reporting(METRICS, "increment", BASE, lambda p, v, s: cat(p, text(p, v), "|c"))
reporting(METRICS, "decrement", BASE, lambda p, v, s: cat(p, text(p, neg(p, v)), "|c"))
reporting(METRICS, "timing", BASE, lambda p, v, s: cat(p, text(p, p.e.binop("Mult", v, 1000)), "|ms"))
C_ = z3.Function("count_of", z3.IntSort(), z3.IntSort())
COUNT = (("_count", lambda i: Sym("int", C_(zi(i)))),)
reporting(EXT, "increment", M + "countermetric:CounterMetric",
          lambda p, v, s: cat(p, text(p, total(p, "increment", v, s)), "|c"), extra=COUNT)
reporting(EXT, "decrement", M + "countermetric:CounterMetric",
          lambda p, v, s: cat(p, text(p, total(p, "decrement", v, s)), "|c"), extra=COUNT)
reporting(EXT, "timing", M + "timermetric:TimerMetric", lambda p, v, s: cat(p, text(p, p.e.binop("Mult", v, 1000)), "|ms"))


def generic(cls):
    @section("%s.report, sli, sli_error" % cls.split(":")[1])
    def body(p):
        def one():
            which = ["report", "report+", "sli", "sli+", "sli_error"][p.e.choose(5)]
            key = p.str("type") if which.startswith("report") else "sli"
            w, o, ns, d = client(p, cls, lambda w, k, i: p.e.alloc(HInst(p.get(M + "metrics:GenericMetric"), {
                "connection": w.conn, "name": k, "sample_rate": 1, "key": key})))
            name = p.str("name")
            q = full(p, ns, name)
            v, x = value(p), value(p)
            data = cat(p, text(p, v), "|", key)
            if which == "report":
                p.no_raise(lambda: p.m(o, "report", name, v, key))
            elif which == "report+":
                p.no_raise(lambda: p.m(o, "report", name, v, key, x))
                data = cat(p, data, "|", text(p, x))
            elif which == "sli":
                p.no_raise(lambda: p.m(o, "sli", name, v))
            elif which == "sli+":
                p.no_raise(lambda: p.m(o, "sli", name, v, x))
                data = cat(p, data, "|", text(p, x))
            else:
                p.no_raise(lambda: p.m(o, "sli_error", name))
                data = "error|sli"
            was = p.e.dict_get(d, q)
            if was is not None:
                p.eq(p.a(was, "name"), q, "the metric found has the qualified name")
            expect(p, w, q if was is None else p.a(was, "name"), data, None, which)
            p.prove(len(w.draws) == 0, "is never sampled")
            now = p.e.dict_get(p.a(o, "_metrics"), q)
            p.eq(p.a(now, "key"), key, "its type is remembered")
        p.paths(one)


generic(METRICS)
generic(EXT)


def timing0(cls):
    @section("%s.timing without a duration" % cls.split(":")[1])
    def body(p):
        def one():
            times = []

            def now(e, a, k):
                times.append(e.fresh("float", "time"))
                return times[-1]
            p.external("time.time", now)
            w, o, ns, d = client(p, cls, metric_table(p, BASE if cls == METRICS else M + "timermetric:TimerMetric"))
            last = p.float("last")
            p.set(o, "last_time", last)
            name = p.str("name")
            q = full(p, ns, name)
            old = p.e.dict_get(d, q)
            rate = 1 if old is None else p.a(old, "sample_rate")
            if p.e.choose(2):
                p.no_raise(lambda: p.m(o, "reset_timing"))
                last = times[-1]
            p.no_raise(lambda: p.m(o, "timing", name))
            ms = p.e.binop("Mult", p.e.binop("Sub", times[-1], last), 1000)
            if old is not None:
                p.eq(p.a(old, "name"), q, "the metric found has the qualified name")
            expect(p, w, q if old is None else p.a(old, "name"), cat(p, text(p, ms), "|ms"), rate, "timing")
            p.eq(p.a(o, "last_time"), times[-1], "the next duration starts now")
        p.paths(one)


timing0(METRICS)
timing0(EXT)


@section("Metrics.__init__")
def init(p):
    def one():
        w = World(p)
        for cls in (METRICS, EXT):
            o = p.no_raise(lambda: p.new(cls, w.conn, p.str("ns")))
            p.eq(p.a(o, "_metrics"), p.dict(), "no metric is known at first")
    p.paths(one)


def direct(path, method, data, extra=()):
    @section("%s.%s" % (path.split(":")[1], method))
    def body(p):
        def one():
            w = World(p)
            name = p.str("name")
            rate = rate_of(p)
            o = p.no_raise(lambda: p.new(path, w.conn, name, rate))
            state = None
            for n, f in extra:
                p.eq(p.a(o, n), 0, "the total starts at zero")
                p.set(o, n, p.int("count"))
                state = {n: p.a(o, n)}
            v = value(p, 2)
            p.no_raise(lambda: p.m(o, method, v))
            expect(p, w, name, data(p, v, state), rate, method)
            if extra:
                p.eq(p.m(o, "count"), total(p, method, v, state), "count() is the running total")
        p.paths(one)


direct(M + "gaugemetric:GaugeMetric", "mark", lambda p, v, s: cat(p, text(p, v), "|g"))
direct(M + "metermetric:MeterMetric", "mark", lambda p, v, s: cat(p, text(p, v), "|m"))
direct(M + "timermetric:TimerMetric", "mark", lambda p, v, s: cat(p, text(p, p.e.binop("Mult", v, 1000)), "|ms"))
direct(M + "countermetric:CounterMetric", "increment", lambda p, v, s: cat(p, text(p, total(p, "increment", v, s)), "|c"), COUNT)
direct(M + "countermetric:CounterMetric", "decrement", lambda p, v, s: cat(p, text(p, total(p, "decrement", v, s)), "|c"), COUNT)
