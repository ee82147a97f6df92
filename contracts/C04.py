"""Timers in compliant mode.  Ghost state for one arbitrary timer t: G, the samples accepted for it and not yet reported, in
order.  At every yield of a flush the environment appends any samples to any timer and creates new ones (rely)."""
import z3
from pyded.core import HList, NonFin, Ref, Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *
from contracts.flush import Flushing, forwards, number

MP = PROC + "MessageProcessor"
FUNCTIONS = ["MessageProcessor.__init__", "MessageProcessor.process_timer_metric", "MessageProcessor.compose_timer_metric",
             "MessageProcessor.flush_timer_metrics", "MessageProcessor.flush"]
TRUSTED = ["list.sort() yields the same values in non-decreasing order; sum() is their sum", "float(text) is the number written, or raises ValueError"]
ASSUMPTIONS = ["means are computed with real numbers (rounding of floating-point sums is not verified)",
               "other code runs only between the steps of a flush (Twisted's cooperator), and reaches the timers only through compose_timer_metric",
               "percentiles are whole numbers from 0 to 100"]
NOTE = """All obligations for all inputs, histories and interleavings at the yields of a flush; floats as reals."""


def samples(p, name):
    N = z3.Function(p.e.name(name + "_size"), z3.IntSort(), z3.IntSort())
    fam = p.e.family(name + "_sample", "float", lambda i: N(zi(i)))
    return (lambda e, i, k=None: p.listof(fam.get([zi(i)]))), [lambda e, i, v: [N(zi(i)) >= 0]]


def processor(p):
    o = p.no_raise(lambda: p.new(MP, clock(p)))
    mk, facts = samples(p, "pending")
    d = p.e.sym_dict("timers", mk, valfacts=facts)
    p.set(o, "timer_metrics", d)
    return o, d


@section("MessageProcessor.__init__")
def init(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        p.eq(p.a(o, "timer_metrics"), p.dict(), "a new processor has no timers")
    p.paths(one)


def copy(p, v):
    return None if v is None else p.e.alloc(p.e.obj(v).clone())


@section("MessageProcessor.compose_timer_metric")
def compose(p):
    def one():
        o, d = processor(p)
        key, other, x = p.str("key"), p.str("other"), p.float("duration")
        p.assume(key.t != other.t)
        was, owas = copy(p, p.e.dict_get(d, key)), copy(p, p.e.dict_get(d, other))
        p.no_raise(lambda: p.m(o, "compose_timer_metric", key, x))
        d2 = p.a(o, "timer_metrics")
        now, onow = p.e.dict_get(d2, key), p.e.dict_get(d2, other)
        want = p.list() if was is None else was
        p.e.list_append(want, x)
        p.prove(now is not None, "the timer exists from then on")
        p.eq(now, want, "the sample is added to those not yet reported")
        p.prove((onow is None) == (owas is None), "no other timer appears or disappears")
        if onow is not None:
            p.eq(onow, owas, "or changes")
    p.paths(one)


@section("MessageProcessor.process_timer_metric")
def process(p):
    def one():
        o, d = processor(p)
        key, message, text = p.str("key"), p.str("message"), p.str("value")
        failed, composed = p.trace(), p.trace()
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        p.e.contracts[MP + ".compose_timer_metric"] = lambda e, f, a, k: e.list_append(composed, tuple(a[1:]))
        p.no_raise(lambda: p.m(o, "process_timer_metric", key, text, message))
        v = number(p, text)
        p.eq(composed, p.list() if v is None else p.list((key, v)), "a finite number counts once, with its value; anything else does not")
        p.eq(failed, p.list(message) if v is None else p.list(), "and is discarded as a bad line")
    p.paths(one)


class Timers(Flushing):
    def __init__(self, p, d, percent, ts):
        Flushing.__init__(self, p, d)
        self.percent, self.ts = percent, ts
        self.C, self.had = 0, None
        self.G = copy(p, p.e.elem(self.rest.vals, self.t))

    def values(self):
        mk, facts = samples(self.p, "now")
        return self.p.base("values", None, n=self.n, mk=mk, facts=facts)

    def havoc_tracked(self, k):
        self.G = self.p.listof(self.p.base("G", "float"))
        self.tracked = copy(self.p, self.G)
        return self.tracked

    def havoc_new(self):
        return self.p.listof(self.p.base("new", "float"))

    def snap(self, v):
        return copy(self.p, v)

    def same_entry(self, a, b):
        self.p.eq(a, b, "a timer created during the flush keeps its samples")

    def more_frame(self):
        return {(self.tracked.a, None), (self.G.a, None)}

    def before(self, e, k):
        self.C = 0
        self.had = copy(self.p, self.G)

    def after(self, e, k):
        Flushing.after(self, e, k)
        p = self.p
        if p.e.branch(zi(k) == self.t):
            n = 1 if p.e.branch(zi(p.e.list_len(self.had)) > 0) else 0
            p.prove(self.C == n, "a timer is reported exactly once if it has samples, and not if it has none")

    def names(self, k):
        p = self.p
        key = self.key(k)
        return [cat(p, "stats.timers.", key, x) for x in (".count", ".lower", ".mean", ".upper")] + \
            [cat(p, "stats.timers.", key, ".upper_", p.e.call(p.e.builtins["str"], [self.percent], {}))]

    def reported(self, got):
        p = self.p
        self.C += 1
        S = copy(p, self.G)
        p.m(S, "sort")
        n = p.e.list_len(S)
        drop = p.e.call(p.e.builtins["int"], [p.e.call(p.e.builtins["round"], [
            p.e.binop("Mult", p.e.binop("Div", p.e.binop("Sub", 100, self.percent), Sym("float", z3.RealVal(100))), n)], {})], {})
        keep = p.e.binop("Sub", n, drop)
        if p.e.branch(p.e.lt(keep, 1)):
            keep = 1
        kept = p.e.alloc(HList(p.e.segs_slice(p.e.obj(S).segs, 0, keep)))
        values = [n, p.e.list_get(S, 0), p.e.binop("Div", p.e.call(p.e.builtins["sum"], [kept], {}), keep),
                  p.e.list_get(S, -1), p.e.list_get(kept, -1)]
        p.eq(p.list(*got), p.list(*[(a, b, self.ts) for a, b in zip(self.names(self.t), values)]),
             "a timer's report is the number, smallest, trimmed mean, largest and largest kept of exactly the samples not yet reported")
        self.p.e.heap[self.G.a] = HList([])

    def other_reported(self, k, got):
        p = self.p
        p.eq(p.list(*[g[0] for g in got]), p.list(*self.names(k)), "each report is under the timer's own name")

    def arrive(self, v):
        p = self.p
        more = p.listof(p.base("arrived", "float"))
        p.e.list_extend(v, more)
        p.e.list_extend(self.G, more)
        return v

    def check(self, e, k):
        v = self.entry(self.key(self.t))
        return [("no sample is lost or reported twice: a timer holds the samples accepted and not yet reported", e.eq(v, self.G))]


@section("MessageProcessor.flush_timer_metrics, with samples arriving at every yield")
def flush(p):
    def one():
        o, d = processor(p)
        percent, ts = p.int("percent"), p.int("timestamp")
        p.assume(z3.And(percent.t >= 0, percent.t <= 100))
        inv = Timers(p, d, percent, ts)
        p.no_raise(lambda: p.e.iterate(p.m(o, "flush_timer_metrics", percent, ts), inv.consume))
        p.same(p.a(o, "timer_metrics"), d, "the timers stay where samples are added")
    p.paths(one)


@section("MessageProcessor.flush")
def whole(p):
    def one():
        o = p.no_raise(lambda: p.new(MP, clock(p)))
        forwards(p, o)
    p.paths(one)
