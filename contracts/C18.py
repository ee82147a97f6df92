"""A flush of the service, end to end: StatsDService.flushProcessor hands on what the processor's flush yields, flush forwards
every kind of metric, and the summary's self-statistics are those of what was flushed and handled."""
import z3
from pyded.core import HInst, HList, Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *
from contracts.flush import KINDS, forwards, rows

MP, CP = PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor"
SERVICE = "txstatsd.service:StatsDService"
FUNCTIONS = ["StatsDService.__init__/flushProcessor", "MessageProcessor.flush/flush_metrics_summary/flush_meter_metrics/flush_plugin_metrics/process_message",
             "ConfigurableMessageProcessor.__init__/flush_counter_metrics/flush_timer_metrics/flush_gauge_metrics", "Router.__init__ (delegation of flush)"]
TRUSTED = ["Cooperator.coiterate(g) runs g to its end, step by step", "LoopingCall"]
ASSUMPTIONS = ["a metric's report() and a plugin's flush() return the metric's data points (C06, C07, C05, C20, C11)",
               "representation invariant: process_timings and by_type have the same keys (kept by process_message, proved)",
               "with messages arriving between the steps of the summary: up to two types handled before, one arriving at each step"]


@section("StatsDService.flushProcessor")
def service(p):
    def one():
        works = p.trace()
        coop = p.stub("cooperator", {"coiterate": p.recorder(works)})
        p.external("twisted.internet.task.Cooperator", lambda e, a, k: coop)
        p.external("twisted.internet.task.LoopingCall", lambda e, a, k: p.stub("loop"))
        sent, asked = p.trace(), p.trace()
        M, V, T = (z3.Function(n, z3.IntSort(), s) for n, s in (("metric", z3.StringSort()), ("value", z3.RealSort()), ("stamp", z3.IntSort())))
        b = p.base("flushed", None, mk=lambda e, i: (Sym("str", M(zi(i))), Sym("float", V(zi(i))), Sym("int", T(zi(i)))))
        client = p.stub("carbon", {"sendDatapoint": p.recorder(sent)})
        proc = p.stub("processor", {"flush": p.recorder(asked, ret=lambda e, a, k: p.listof(b))})
        interval = p.int("interval")
        s = p.no_raise(lambda: p.new(SERVICE, client, proc, interval))
        p.no_raise(lambda: p.m(s, "flushProcessor"))
        p.eq(p.e.list_len(works), 1, "the work is handed to the cooperator once")
        p.eq(sent, p.list(), "and done by it, step by step")
        p.no_raise(lambda: p.e.iterate(p.e.list_get(works, 0)[0], lambda x: None))
        p.eq(asked, p.list((interval,)), "the processor is flushed once, with the flush interval")
        want = p.trace()
        p.e.iterate(p.listof(b), lambda r: p.e.list_append(want, (r[0], (r[2], r[1]))))
        p.eq(sent, want, "each data point reaches the carbon client exactly once, in order, as (metric, (timestamp, value))")
    p.paths(one)


@section("MessageProcessor.flush")
def whole(p):
    def one():
        o = p.no_raise(lambda: p.new([MP, CP][p.e.choose(2)], clock(p)))
        forwards(p, o)
    p.paths(one)


def summary_rows(p, o, num, per, ts, each=None):
    out = p.trace()

    def take(v):
        p.e.iterate(v, lambda r: p.e.list_append(out, r))
        if each:
            each()
    p.no_raise(lambda: p.e.iterate(p.m(o, "flush_metrics_summary", num, per, ts), take))
    return out


def flush_part(p, prefix, num, per, ts):
    want = p.trace()
    p.e.list_append(want, (cat(p, prefix, "numStats"), num, ts))

    def kind(kv):
        p.e.list_append(want, (cat(p, prefix, "flush.", kv[0], ".count"), kv[1][0], ts))
        p.e.list_append(want, (cat(p, prefix, "flush.", kv[0], ".duration"), p.e.binop("Mult", kv[1][1], 1000), ts))
    p.e.iterate_segs(p.e.dict_segs(per, "items"), kind)
    return want


def processor(p):
    if p.e.choose(2):
        return p.no_raise(lambda: p.new(MP, clock(p))), "statsd."
    prefix = p.str("internal_prefix")
    p.assume(prefix.t != z3.StringVal(""))
    return p.no_raise(lambda: p.new(CP, clock(p), "", prefix)), prefix


def per_metric(p):
    N, D = z3.Function("events", z3.IntSort(), z3.IntSort()), z3.Function("duration", z3.IntSort(), z3.RealSort())
    return p.e.sym_dict("per_metric", lambda e, i, k: (Sym("int", N(zi(i))), Sym("float", D(zi(i)))))


@section("MessageProcessor.flush_metrics_summary")
def summary(p):
    def one():
        o, prefix = processor(p)
        per, num, ts = per_metric(p), p.int("num_stats"), p.int("timestamp")
        N, D = z3.Function("handled", z3.IntSort(), z3.IntSort()), z3.Function("time", z3.IntSort(), z3.RealSort())
        counts = p.e.sym_dict("by_type", lambda e, i, k: Sym("int", N(zi(i))), scalar="int")
        timings = p.e.parallel_dict("process_timings", counts, lambda e, i, k: Sym("float", D(zi(i))), scalar="float")
        p.set(o, "by_type", counts)
        p.set(o, "process_timings", timings)
        want = flush_part(p, prefix, num, per, ts)

        def received(kv):
            p.e.list_append(want, (cat(p, prefix, "receive.", kv[0], ".count"), p.e.dict_get(counts, kv[0]), ts))
            p.e.list_append(want, (cat(p, prefix, "receive.", kv[0], ".duration"), p.e.binop("Mult", kv[1], 1000), ts))
        p.e.iterate_segs(p.e.dict_segs(timings, "items"), received)
        p.eq(summary_rows(p, o, num, per, ts), want, "numStats, then count and duration of each kind flushed, then of each type of message handled since the previous report")
        p.eq(p.a(o, "by_type"), p.dict(), "then no message has been handled since this report")
        p.eq(p.a(o, "process_timings"), p.dict(), "nor its time counted")
    p.paths(one)


@section("MessageProcessor.flush_metrics_summary, with messages arriving at every yield")
def summary_arriving(p):
    def one():
        o, prefix = processor(p)
        types = ["c", "g", "ms"]
        handled = [p.int("handled0"), p.int("handled1")]
        n = p.e.choose(3)
        p.set(o, "by_type", p.dict(list(zip(types, handled))[:n]))
        p.set(o, "process_timings", p.dict([(t, p.float("time")) for t in types[:n]]))
        per = p.dict([("counter", (1, p.float("d")))])
        total = {t: (handled[i] if i < n else 0) for i, t in enumerate(types)}
        reported = {t: 0 for t in types}
        steps = [0]

        def arrive():
            steps[0] += 1
            if steps[0] > 4:
                return
            t = types[p.e.choose(3)]
            total[t] = add(p, total[t], 1)
            p.no_raise(lambda: p.m(o, "process_message", "k:x|" + t, t, "k", p.list("x", t)))
        out = summary_rows(p, o, 1, per, 7, arrive)

        def count(r):
            for t in types:
                if p.e.branch(p.e.eq(r[0], cat(p, prefix, "receive.", t, ".count"))):
                    reported[t] = add(p, reported[t], r[1])
        p.e.iterate(out, count)
        for t in types:
            left = p.e.dict_get(p.a(o, "by_type"), t)
            p.eq(add(p, reported[t], 0 if left is None else left), total[t], "every message handled is reported by this flush or counted for the next")
    p.paths(one)


@section("MessageProcessor.process_message")
def handled(p):
    def one():
        o, prefix = processor(p)
        N, D = z3.Function("handled", z3.IntSort(), z3.IntSort()), z3.Function("time", z3.IntSort(), z3.RealSort())
        counts = p.e.sym_dict("by_type", lambda e, i, k: Sym("int", N(zi(i))), scalar="int")
        timings = p.e.parallel_dict("process_timings", counts, lambda e, i, k: Sym("float", D(zi(i))), scalar="float")
        p.set(o, "by_type", counts)
        p.set(o, "process_timings", timings)
        plugins = p.e.sym_dict("plugins", lambda e, i, k: Sym("int", zi(i)), scalar="int")
        p.set(o, "plugins", plugins)
        called, failed = p.trace(), p.trace()
        for cls in (MP, CP):
            for kind, arity in (("counter", 4), ("timer", 4), ("gauge", 4), ("meter", 4), ("plugin", 5)):
                p.e.contracts["%s.process_%s_metric" % (cls, kind)] = lambda e, f, a, k, kind=kind: e.list_append(called, (kind,) + tuple(a[1:]))
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        message, typ, key, v, extra, other = (p.str(x) for x in ("message", "type", "key", "value", "extra", "other_type"))
        p.assume(other.t != typ.t)
        fields = p.list(v, typ) if p.e.choose(2) else p.list(v, typ, extra)
        was = [p.e.dict_get(d, t) for d in (counts, timings) for t in (typ, other)]
        p.no_raise(lambda: p.m(o, "process_message", message, typ, key, fields))
        now = [p.e.dict_get(d, t) for d in (p.a(o, "by_type"), p.a(o, "process_timings")) for t in (typ, other)]
        for i in (1, 3):
            p.prove((was[i] is None) == (now[i] is None) and (was[i] is None or p.valid(p.e.eq(was[i], now[i]))), "other types are not affected")
        p.prove((now[0] is None) == (now[2] is None), "by_type and process_timings have the same keys")
        known = {"c": "counter", "ms": "timer", "g": "gauge", "m": "meter"}
        kind = None
        for t in known:
            if p.e.branch(p.e.eq(typ, t)):
                kind = known[t]
        if kind is None and p.e.dict_get(plugins, typ) is None:
            p.eq(called, p.list(), "a message of an unknown type is not handled")
            p.eq(failed, p.list(message), "but discarded")
            p.prove((was[0] is None) == (now[0] is None) and (was[0] is None or p.valid(p.e.eq(was[0], now[0]))), "and not counted")
            return
        args = {"counter": (key, fields, message), "plugin": (typ, key, fields, message)}.get(kind or "plugin", (key, v, message))
        p.eq(called, p.list((kind or "plugin",) + args), "a message is handled once, as its type says")
        p.eq(failed, p.list(), "and not discarded here")
        p.eq(now[0], add(p, 0 if was[0] is None else was[0], 1), "and counted once for its type")
    p.paths(one)


def reports(cls, kind, attr, method, args):
    @section("%s.flush_%s_metrics" % (cls.split(":")[1], kind))
    def body(p):
        def one():
            o = p.new(cls, clock(p))
            d = p.e.sym_dict(attr, lambda e, i, k: p.stub("metric", {method: Builtin(method, lambda e2, a, kw: ("points", k, tuple(a)))}))
            p.set(o, attr, d)
            a = [p.int(x) for x in args]
            want, out = p.trace(), p.trace()
            given = {"report": a[-1:], "flush": a}[method]
            p.e.iterate_segs(p.e.dict_segs(d, "keys"), lambda k: p.e.list_append(want, ("points", k, tuple(given))))
            p.no_raise(lambda: p.e.iterate(p.m(o, "flush_%s_metrics" % kind, *a), lambda v: p.e.list_append(out, v)))
            p.eq(out, want, "every metric is asked exactly once, for the flush's timestamp, and its data points are flushed")
        p.paths(one)


reports(MP, "meter", "meter_metrics", "report", ["timestamp"])
reports(MP, "plugin", "plugin_metrics", "flush", ["interval", "timestamp"])
reports(CP, "counter", "counter_metrics", "report", ["interval", "timestamp"])
reports(CP, "timer", "timer_metrics", "report", ["percent", "timestamp"])
reports(CP, "gauge", "gauge_metrics", "report", ["timestamp"])


@section("Router.__init__")
def router(p):
    def one():
        asked = p.trace()
        p.external("twisted.internet.defer.succeed", lambda e, a, k: p.stub("deferred"))
        proc = p.stub("processor", {"flush": p.recorder(asked, ret="flushed")})
        r = p.no_raise(lambda: p.new("txstatsd.server.router:Router", proc, ""))
        i = p.int("interval")
        p.eq(p.no_raise(lambda: p.m(r, "flush", interval=i)), "flushed", "a flush through the router gives what the processor flushes")
        p.eq(asked, p.list((i,)), "with the same interval")
    p.paths(one)
