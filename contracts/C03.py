"""Counters in compliant mode: conservation over any history, with samples arriving between any two steps of a flush.
Ghost state for one arbitrary counter t: P0 pending when the flush began, A accepted since, S accepted since it was reported,
C how often it was reported, R the count reported.  The loop invariant of flush_counter_metrics relates them to the
dict of counters; at every yield the environment may add to any counter and create new ones (rely)."""
import z3
from pyded.core import NonFin, Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *
from contracts.flush import Flushing, forwards, number

MP = PROC + "MessageProcessor"
FUNCTIONS = ["MessageProcessor.__init__", "MessageProcessor.process_counter_metric", "MessageProcessor.compose_counter_metric",
             "MessageProcessor.flush_counter_metrics", "MessageProcessor.flush"]
TRUSTED = ["float(text) is the number written, or raises ValueError", "re: RATE.match accepts what its pattern says (the value of the group is then read with float)"]
ASSUMPTIONS = ["counts are added up as real numbers (rounding of floating-point sums is not verified)",
               "other code runs only between the steps of a flush (Twisted's cooperator), and reaches the counters only through compose_counter_metric"]
NOTE = """All obligations for all inputs, histories and interleavings at the yields of a flush; floats as reals."""


def processor(p):
    o = p.no_raise(lambda: p.new(MP, clock(p)))
    d = p.e.sym_dict("counters", lambda e, i, k: Sym("float", PEND(zi(i))))
    p.set(o, "counter_metrics", d)
    return o, d


PEND = z3.Function("pending", z3.IntSort(), z3.RealSort())


@section("MessageProcessor.__init__")
def init(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        p.eq(p.a(o, "counter_metrics"), p.dict(), "a new processor has no counters")
        p.eq(p.a(o, "stats_prefix"), "stats.", "where rates are reported")
        p.eq(p.a(o, "count_prefix"), "stats_counts.", "where counts are reported")
    p.paths(one)


def pending(p, d, key):
    v = p.e.dict_get(d, key)
    return z3.RealVal(0) if v is None else zr(v)


@section("MessageProcessor.compose_counter_metric")
def compose(p):
    def one():
        o, d = processor(p)
        key, other = p.str("key"), p.str("other")
        p.assume(key.t != other.t)
        value = p.float("value")
        rate = [lambda: p.float("rate"), lambda: 1][p.e.choose(2)]()
        if rate != 1:
            p.assume(rate.t != 0)
        before, obefore, had = pending(p, d, key), pending(p, d, other), p.e.dict_get(d, other) is not None
        p.no_raise(lambda: p.m(o, "compose_counter_metric", key, value, rate))
        d2 = p.a(o, "counter_metrics")
        p.prove(pending(p, d2, key) == before + value.t / (1 if rate == 1 else rate.t), "adds value / rate to the counter")
        p.prove(p.e.dict_get(d2, key) is not None, "which exists from then on")
        p.prove((p.e.dict_get(d2, other) is not None) == had, "no other counter appears or disappears")
        p.prove(pending(p, d2, other) == obefore, "or changes")
    p.paths(one)


RATE = r"^@([\d\.]+(?:[eE][-+]?\d+)?)"


@section("MessageProcessor.process_counter_metric")
def process(p):
    def one():
        o, d = processor(p)
        key, message = p.str("key"), p.str("message")
        text, extra = p.str("value"), p.str("extra")
        fields = [text, "c"] + ([extra] if p.e.choose(2) else [])
        before = pending(p, d, key)
        failed, composed = p.trace(), p.trace()
        p.e.contracts[MP + ".fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        p.e.contracts[MP + ".compose_counter_metric"] = lambda e, f, a, k: e.list_append(composed, tuple(a[1:]))
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = p.e.contracts[MP + ".fail"]
        p.no_raise(lambda: p.m(o, "process_counter_metric", key, p.list(*fields), message))
        v = number(p, text)
        rate = 1
        if v is not None and len(fields) == 3:
            m = p.e.call(p.e.getattr_(p.e.call(p.e.extern["re.compile"], [RATE], {}), "match"), [extra], {})
            rate = None if m is None else number(p, p.e.call(p.e.getattr_(m, "group"), [1], {}))
            if rate is not None and p.e.branch(p.e.eq(rate, 0)):
                rate = None
        if v is None or rate is None:
            p.eq(composed, p.list(), "what is not a finite value, or has no usable rate, counts nothing")
            p.eq(failed, p.list(message), "and is discarded as a bad line")
        else:
            p.eq(composed, p.list((key, v, rate)), "an accepted sample counts once, with its value and rate (1 when not given)")
            p.eq(failed, p.list(), "and is no bad line")
    p.paths(one)


def seconds(p):
    """The interval in seconds, as flush passes it: a whole number of them or not."""
    x = (p.int if p.e.choose(2) else p.float)("interval")
    p.assume(x.t > 0)
    return x


class Counters(Flushing):
    """Ghosts: P0 pending at the start, A accepted since, S accepted since t was reported, C reports of t, R the count reported."""

    def __init__(self, p, o, d, interval, ts):
        Flushing.__init__(self, p, d)
        self.o, self.interval, self.ts = o, interval, ts
        self.P0 = PEND(self.t)
        self.A = self.S = self.R = z3.RealVal(0)
        self.C = z3.IntVal(0)

    def values(self):
        F = z3.Function(self.p.e.name("pending"), z3.IntSort(), z3.RealSort())
        return self.p.base("values", "float", n=self.n, mk=lambda e, i: Sym("float", F(zi(i))))

    def havoc_tracked(self, k):
        self.A, self.S, self.R = (self.p.float(x).t for x in ("A", "S", "R"))
        self.C = self.p.int("C").t
        return self.p.float("tracked")

    def havoc_new(self):
        return self.p.float("new")

    def same_entry(self, a, b):
        self.p.prove(zr(a) == zr(b), "a counter created during the flush keeps what is pending")

    def well_formed(self, k, got):
        p = self.p
        key = self.key(k)
        p.prove(len(got) == 2, "a counter is reported as a rate and a count")
        count = got[1][1] if len(got) == 2 and isinstance(got[1], tuple) and len(got[1]) == 3 else p.float("x")
        want = [(cat(p, "stats.", key), Sym("float", zr(count) / zr(self.interval)), self.ts), (cat(p, "stats_counts.", key), count, self.ts)]
        p.eq(p.list(*got), p.list(*want), "under its name, the rate being the count divided by the interval")
        return zr(count)

    def reported(self, got):
        self.R = self.R + self.well_formed(self.t, got)
        self.C = self.C + 1
        self.S = z3.RealVal(0)

    def other_reported(self, k, got):
        self.well_formed(k, got)

    def arrive(self, v):
        x = self.p.float("sample").t
        self.A, self.S = self.A + x, self.S + x
        return Sym("float", zr(v) + x)

    def check(self, e, k):
        v = zr(self.entry(self.key(self.t)))
        k = zi(k)
        return [("conservation: reported plus pending is what was accepted", self.R + v == self.P0 + self.A),
                ("a counter is reported exactly once", self.C == z3.If(k <= self.t, z3.IntVal(0), z3.IntVal(1))),
                ("nothing is reported before its turn", z3.Implies(k <= self.t, self.R == 0)),
                ("what is pending after its report was accepted since", z3.Implies(k > self.t, v == self.S))]


@section("MessageProcessor.flush_counter_metrics, with samples arriving at every yield")
def flush(p):
    def one():
        o, d = processor(p)
        interval, ts = seconds(p), p.int("timestamp")
        inv = Counters(p, o, d, interval, ts)
        p.no_raise(lambda: p.e.iterate(p.m(o, "flush_counter_metrics", interval, ts), inv.consume))
        p.same(p.a(o, "counter_metrics"), d, "the counters stay where samples are added")
        for nm, c in inv.check(p.e, inv.n):
            p.prove(c, "after the flush: " + nm)
    p.paths(one)


@section("MessageProcessor.flush_counter_metrics, a counter without samples")
def flush_zero(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        a, b = p.str("a"), p.str("b")
        p.assume(a.t != b.t)
        p.set(o, "counter_metrics", p.dict([(a, 0), (b, 0)][:p.e.choose(3)]))
        interval, ts = seconds(p), p.int("timestamp")
        want, got = p.trace(), p.trace()
        p.e.iterate(p.a(o, "counter_metrics"), lambda k: (p.e.list_append(want, (cat(p, "stats.", k), 0, ts)), p.e.list_append(want, (cat(p, "stats_counts.", k), 0, ts))))
        p.no_raise(lambda: p.e.iterate(p.m(o, "flush_counter_metrics", interval, ts), lambda v: p.e.iterate(v, lambda r: p.e.list_append(got, r))))
        p.eq(got, want, "is reported as zero, once")
    p.paths(one)


@section("MessageProcessor.flush")
def whole(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        forwards(p, o)
    p.paths(one)
