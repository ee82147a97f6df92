"""Meters: ghost state T (total ever received) and S (received since the last report that reported something)."""
import z3
from pyded.core import HInst, Sym, zr
from pyded.proof import section
from contracts.common import *

ASSUMPTIONS = ["the names, prefixes and values handed to a meter are strings and finite numbers (the server passes float(value))"]
FUNCTIONS = ["MeterMetricReporter.__init__", "MeterMetricReporter.mark", "MeterMetricReporter.report",
             "MessageProcessor.compose_meter_metric", "MessageProcessor.flush_meter_metrics",
             "ConfigurableMessageProcessor.compose_meter_metric"]


def meter(p, name=None, prefix=None):
    """A meter in any state in which count + value is the total received and value what is not yet reported."""
    name = p.str("name") if name is None else name
    prefix = p.str("prefix") if prefix is None else prefix
    o = p.new(METER, name, wall_time_func=clock(p), prefix=prefix)
    T, S = p.float("total"), p.float("since")
    p.set(o, "value", S)
    p.set(o, "count", Sym("float", T.t - S.t))
    p.set(o, "poll_time", p.float("polled"))
    return o, name, prefix, T, S


def state(p, o):
    return zr(p.a(o, "value")), zr(p.a(o, "count")), zr(p.a(o, "poll_time"))


@section("MeterMetricReporter.__init__")
def init(p):
    def one():
        now = p.float("now")
        t = p.stub("clock", call=lambda e, a, k: now)
        name, prefix = p.str("name"), p.str("prefix")
        o = p.no_raise(lambda: p.new(METER, name, wall_time_func=t, prefix=prefix))
        v, c, t = state(p, o)
        p.prove(v == 0, "nothing is pending")
        p.prove(c == 0, "nothing has been counted")
        p.prove(t == now.t, "the first interval begins now")
    p.paths(one)


@section("MeterMetricReporter.mark")
def mark(p):
    def one():
        o, _, _, T, S = meter(p)
        t0 = state(p, o)[2]
        x = p.float("x")
        p.no_raise(lambda: p.m(o, "mark", x))
        v, c, t = state(p, o)
        p.prove(v == S.t + x.t, "the value is pending")
        p.prove(v + c == T.t + x.t, "the total grows by the value")
        p.prove(t == t0, "the interval goes on")
    p.paths(one)


@section("MeterMetricReporter.report")
def report(p):
    def one():
        o, name, prefix, T, S = meter(p)
        prev = state(p, o)[2]
        ts = p.float("timestamp")
        r = p.no_raise(lambda: p.m(o, "report", ts))
        v, c, t = state(p, o)
        p.prove(t == ts.t, "the next interval begins at this report")
        p.prove(v + c == T.t, "no value is lost or counted twice")
        if p.e.branch(ts.t <= prev):
            p.eq(r, p.list(), "nothing is reported when no time has elapsed")
            p.prove(v == S.t, "what is pending counts towards the next report")
        else:
            full = dotted(p, prefix, name)
            want = [(cat(p, full, ".count"), rnd(p, T), ts),
                    (cat(p, full, ".rate"), rnd(p, Sym("float", S.t / (ts.t - prev))), ts)]
            p.eq(r, p.list(*want), "reports the total as count and the pending total per second as rate")
            p.prove(v == 0, "then nothing is pending")
    p.paths(one)


def processor(p, cls):
    kw = {} if cls.startswith(PROC) else {"message_prefix": p.str("message_prefix")}
    o = p.new(cls, time_function=clock(p), **kw)
    made = {}

    def mk(e, i, k):
        S, T, t, n = (z3.Function("m_" + x, z3.IntSort(), z3.RealSort()) for x in ("since", "total", "polled", "n"))
        return e.alloc(HInst(p.get(METER), {"name": k, "prefix": Sym("str", z3.String("mprefix")),
                                            "wall_time_func": None, "value": Sym("float", S(i)),
                                            "count": Sym("float", T(i) - S(i)), "poll_time": Sym("float", t(i))}))
    d = p.e.sym_dict("meters", mk, mutable=True)
    p.set(o, "meter_metrics", d)
    return o, d


def compose(cls):
    def one_section(p):
        def one():
            o, d = processor(p, cls)
            key, x, other = p.str("key"), p.float("x"), p.str("other")
            p.assume(other.t != key.t)
            old = p.e.dict_get(d, other)
            old_state = None if old is None else state(p, old)
            had = p.e.dict_get(d, key)
            had_state = None if had is None else state(p, had)
            n0 = p.e.dict_len(d)
            p.no_raise(lambda: p.m(o, "compose_meter_metric", key, x))
            d2 = p.a(o, "meter_metrics")
            now = p.e.dict_get(d2, key)
            if now is None:
                p.prove(False, "the meter of that name exists afterwards")
                return
            v, c, t = state(p, now)
            if had is None:
                p.prove(z3.And(v == x.t, c == 0), "a new meter holds exactly the value")
                p.eq(p.a(now, "name"), key, "a new meter reports under its name")
            else:
                p.same(now, had, "an existing meter is kept")
                p.prove(z3.And(v == had_state[0] + x.t, c == had_state[1], t == had_state[2]),
                        "an existing meter is marked with exactly the value")
            after = p.e.dict_get(d2, other)
            p.prove((after is None) == (old is None), "no other meter appears or disappears")
            if after is not None and old is not None:
                p.same(after, old, "another meter is the same object")
                p.prove(z3.And(*[a == b for a, b in zip(state(p, after), old_state)]), "another meter is unchanged")
        p.paths(one)
    return one_section


section("MessageProcessor.compose_meter_metric")(compose(PROC + "MessageProcessor"))
section("ConfigurableMessageProcessor.compose_meter_metric")(compose(CONF + "ConfigurableMessageProcessor"))


@section("MessageProcessor.flush_meter_metrics")
def flush(p):
    def one():
        o, d = processor(p, PROC + "MessageProcessor")
        ts = p.int("timestamp")
        got = p.trace()

        def rep(e, f, args, kw):
            # the callee's contract: called once per metric with the flush's timestamp
            e.list_append(got, (e.getattr_(args[0], "name"), args[1]))
            return ("reported", e.getattr_(args[0], "name"), args[1])
        p.e.contracts[METER + ".report"] = rep
        out = p.trace()
        p.no_raise(lambda: p.e.iterate(p.m(o, "flush_meter_metrics", ts), lambda v: p.e.list_append(out, v)))
        spec = p.trace()
        p.e.iterate_segs(p.e.dict_segs(d, "items"), lambda kv: p.e.list_append(spec, (kv[0], ts)))
        spec2 = p.trace()
        p.e.iterate_segs(p.e.dict_segs(d, "items"), lambda kv: p.e.list_append(spec2, ("reported", kv[0], ts)))
        p.eq(got, spec, "every meter is asked to report exactly once, with the flush's timestamp")
        p.eq(out, spec2, "and what it reports is flushed")
    p.paths(one)
