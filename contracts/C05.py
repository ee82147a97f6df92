"""Gauges: an arbitrary queue (compliant mode) or table (configurable mode) of gauges, any message, any flush; samples may
arrive at every yield of a flush."""
import z3
from pyded.core import HInst, HList, Sym, zi, zr
from pyded.proof import section
from contracts.common import *
from contracts.flush import forwards, number

MP, CP = PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor"
FUNCTIONS = ["MessageProcessor.__init__/process_gauge_metric/compose_gauge_metric/flush_gauge_metrics/flush",
             "ConfigurableMessageProcessor.__init__/compose_gauge_metric/flush_gauge_metrics", "GaugeMetricReporter.__init__/mark/report"]
TRUSTED = ["float(text) is the number written, or raises ValueError"]
ASSUMPTIONS = ["other code runs only between the steps of a flush (Twisted's cooperator)"]
VALUE, KEY = z3.Function("gauge_value", z3.IntSort(), z3.RealSort()), z3.Function("gauge_key", z3.IntSort(), z3.StringSort())


def compliant(p):
    o = p.no_raise(lambda: p.new(MP, clock(p)))
    b = p.base("received", None, mk=lambda e, i: p.list(Sym("float", VALUE(zi(i))), Sym("str", KEY(zi(i)))))
    p.e.heap[p.a(o, "gauge_metrics").a].segs = [b]
    return o, b


def row(p, v, k, ts):
    return (cat(p, "stats.gauge.", k, ".value"), v, ts)


@section("MessageProcessor.__init__")
def init(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        out = p.trace()
        p.e.iterate(p.m(o, "flush_gauge_metrics", p.int("ts")), lambda v: p.e.list_append(out, v))
        p.eq(out, p.list(), "a new processor reports no gauge")
        c = p.no_raise(lambda: p.new(CP, clock(p)))
        p.e.iterate(p.m(c, "flush_gauge_metrics", p.int("ts")), lambda v: p.e.list_append(out, v))
        p.eq(out, p.list(), "in configurable mode neither")
        p.eq(p.a(c, "gauge_metrics"), p.dict(), "it has no gauges")
    p.paths(one)


def flush_rows(p, o, ts, arrive=None):
    out = p.trace()

    def take(v):
        p.e.iterate(v, lambda r: p.e.list_append(out, r))
        if arrive:
            arrive()
    p.no_raise(lambda: p.e.iterate(p.m(o, "flush_gauge_metrics", ts), take))
    return out


def expected(p, b, ts, more=()):
    want = p.trace()
    p.e.iterate(p.listof(b), lambda m: p.e.list_append(want, row(p, p.e.list_get(m, 0), p.e.list_get(m, 1), ts)))
    for v, k in more:
        p.e.list_append(want, row(p, v, k, ts))
    return want


@section("MessageProcessor.compose_gauge_metric, then flush_gauge_metrics")
def gauges(p):
    def one():
        o, b = compliant(p)
        ts, v, k = p.int("ts"), p.float("value"), p.str("key")
        p.eq(flush_rows(p, o, ts), expected(p, b, ts), "a flush reports every value ever received, in the order received")
        p.eq(flush_rows(p, o, ts), expected(p, b, ts), "and so does every later flush")
        p.no_raise(lambda: p.m(o, "compose_gauge_metric", k, v))
        p.eq(flush_rows(p, o, ts), expected(p, b, ts, [(v, k)]), "a new value is reported after all earlier ones, and changes none of them")
    p.paths(one)


@section("MessageProcessor.flush_gauge_metrics, with samples arriving at every yield")
def arriving(p):
    def one():
        o, b = compliant(p)
        ts = p.int("ts")
        p.eq(flush_rows(p, o, ts, lambda: p.m(o, "compose_gauge_metric", p.str("k"), p.float("v"))), expected(p, b, ts),
             "reports the values received before it began, once each")
        n = p.e.list_len(p.a(o, "gauge_metrics"))
        p.prove(zi(n) == 2 * zi(b.n), "and keeps the ones that arrived meanwhile")
    p.paths(one)


@section("the last value reported for a gauge is the last one received")
def last(p):
    def one():
        o, b = compliant(p)
        ts, q, i, j = p.int("ts"), p.str("gauge"), p.int("i").t, p.int("j").t
        n = zi(b.n)
        # the last value received for q is at i
        p.assume(z3.And(i >= 0, i < n, KEY(i) == q.t, j > i, j < n, KEY(j) != q.t))
        out = flush_rows(p, o, ts)
        p.eq(p.e.list_get(out, Sym("int", i)), row(p, Sym("float", VALUE(i)), q, ts), "that value is reported")
        p.prove(p.e.eq(p.e.list_get(out, Sym("int", j))[0], row(p, 0, q, ts)[0]) is False or
                z3.Not(p.e.eq(p.e.list_get(out, Sym("int", j))[0], row(p, 0, q, ts)[0])), "and nothing for the gauge after it")
    p.paths(one)


@section("MessageProcessor.process_gauge_metric")
def process(p):
    def one():
        o = p.new([MP, CP][p.e.choose(2)], clock(p))
        key, message, text = p.str("key"), p.str("message"), p.str("value")
        p.e.strspec[text.t.sexpr()] = {"without": ":"}
        failed, composed = p.trace(), p.trace()
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        for c in (MP, CP):
            p.e.contracts[c + ".compose_gauge_metric"] = lambda e, f, a, k: e.list_append(composed, tuple(a[1:]))
        p.no_raise(lambda: p.m(o, "process_gauge_metric", key, text, message))
        v = number(p, text)
        p.eq(composed, p.list() if v is None else p.list((key, v)), "a finite number is recorded, with its value; anything else is not")
        p.eq(failed, p.list(message) if v is None else p.list(), "and is discarded as a bad line")
    p.paths(one)


def table(p):
    o = p.no_raise(lambda: p.new(CP, clock(p), p.str("prefix")))
    F = z3.Function("gauge_now", z3.IntSort(), z3.RealSort())
    d = p.e.sym_dict("gauges", lambda e, i, k: e.alloc(HInst(p.get(GAUGE), {
        "name": k, "prefix": Sym("str", z3.String("gauge_prefix")), "value": Sym("float", F(zi(i)))})), mutable=True)
    p.set(o, "gauge_metrics", d)
    return o, d


@section("GaugeMetricReporter")
def reporter(p):
    def one():
        name, prefix, v, w, ts = p.str("name"), p.str("prefix"), p.float("v"), p.float("w"), p.int("ts")
        g = p.no_raise(lambda: p.new(GAUGE, name, prefix=prefix))
        p.no_raise(lambda: p.m(g, "mark", v))
        p.no_raise(lambda: p.m(g, "mark", w))
        for _ in range(2):
            out = p.trace()
            p.e.iterate(p.no_raise(lambda: p.m(g, "report", ts)), lambda r: p.e.list_append(out, r))
            p.eq(out, p.list((cat(p, dotted(p, prefix, name), ".value"), w, ts)), "every report is the value last marked, once, under its name")
    p.paths(one)


@section("ConfigurableMessageProcessor.compose_gauge_metric")
def compose(p):
    def one():
        o, d = table(p)
        key, other, v, ts = p.str("key"), p.str("other"), p.float("v"), p.int("ts")
        p.assume(key.t != other.t)
        was, owas = p.e.dict_get(d, key), p.e.dict_get(d, other)
        ov = None if owas is None else p.a(owas, "value")
        p.no_raise(lambda: p.m(o, "compose_gauge_metric", key, v))
        d2 = p.a(o, "gauge_metrics")
        now, onow = p.e.dict_get(d2, key), p.e.dict_get(d2, other)
        p.prove(now is not None, "the gauge exists from then on")
        if now is None:
            return
        p.eq(p.a(now, "value"), v, "it has the value received")
        p.eq(p.a(now, "name"), key, "under its name")
        if was is not None:
            p.same(now, was, "an existing gauge is kept")
        else:
            p.eq(p.a(now, "prefix"), dotted(p, p.a(o, "message_prefix"), ""), "a new gauge has the processor's prefix")
        p.prove((onow is None) == (owas is None), "no other gauge appears or disappears")
        if onow is not None:
            p.same(onow, owas, "another gauge stays the same object")
            p.eq(p.a(onow, "value"), ov, "with its value")
    p.paths(one)


@section("ConfigurableMessageProcessor.flush_gauge_metrics")
def flush_table(p):
    def one():
        o, d = table(p)
        ts = p.int("ts")
        want = p.trace()
        p.e.iterate_segs(p.e.dict_segs(d, "values"), lambda g: p.e.list_append(want, (cat(p, p.a(g, "prefix"), p.a(g, "name"), ".value"), p.a(g, "value"), ts)))
        p.eq(flush_rows(p, o, ts), want, "each gauge is reported exactly once, with its present value")
        p.eq(flush_rows(p, o, ts), want, "and again by the next flush")
    p.paths(one)


@section("ConfigurableMessageProcessor.flush_gauge_metrics, with new gauges arriving at every yield")
def flush_arriving(p):
    def one():
        o = p.no_raise(lambda: p.new(CP, clock(p), p.str("prefix")))
        keys = [p.str("k%d" % i) for i in range(4)]
        p.assume(z3.Distinct(*[k.t for k in keys]))
        values = [p.float("v%d" % i) for i in range(4)]
        n = p.e.choose(3)
        for k, v in list(zip(keys, values))[:n]:
            p.m(o, "compose_gauge_metric", k, v)
        left = list(zip(keys, values))[n:]
        ts = p.int("ts")
        out = flush_rows(p, o, ts, lambda: p.m(o, "compose_gauge_metric", *left.pop()) if left else None)
        p.prove(zi(p.e.list_len(out)) == n, "reports each gauge that existed when it began, once")
        p.prove(zi(p.e.dict_len(p.a(o, "gauge_metrics"))) == 4 - len(left), "and keeps the new ones")
    p.paths(one)


@section("MessageProcessor.flush")
def whole(p):
    def one():
        o = p.no_raise(lambda: p.new([MP, CP][p.e.choose(2)], clock(p)))
        forwards(p, o)
    p.paths(one)
