"""Percentiles and histogram over the values the sample retains: an arbitrary list of n >= 1 numbers in arbitrary order."""
import z3
from pyded.core import Base, HList, Sym, zi, zr
from pyded.proof import section
from pyded.seqs import Invariant
from contracts.common import *

FUNCTIONS = ["HistogramMetricReporter.percentiles", "HistogramMetricReporter.histogram", "HistogramMetricReporter.get_values",
             "TimerMetricReporter.percentiles", "TimerMetricReporter.get_values"]
TRUSTED = ["list.sort() yields the same values in non-decreasing order", "math.log(x, 2) >= 0 for x >= 1; math.ceil"]
ASSUMPTIONS = ["the sample's get_values() returns a list of its own, not empty when values were recorded (C09); values are finite numbers",
               "that no bin's index exceeds the list uses real arithmetic"]


def hist(p, count, n):
    """A histogram of the real class over a sample that retains n values."""
    vals = p.base("values", "float", n=n)
    sample = p.stub("sample", {"clear": p.recorder(p.trace()), "get_values": Builtin("get_values", lambda e, a, k: p.listof(vals))})
    h = p.new(HIST, sample, prefix="")
    p.set(h, "count", count)
    return h, vals


def target(p, h):
    """The histogram itself, or the timer that holds it."""
    if p.e.choose(2):
        return h
    t = p.new(TIMER, "t", wall_time_func=clock(p))
    p.set(t, "histogram", h)
    return t


def formula(p, s, n, q):
    """The defined percentile q of the sorted list s of length n (term)."""
    e = p.e
    pos = q * (z3.ToReal(n) + 1)
    if e.branch(pos < 1):
        return zr(e.list_get(s, 0))
    if e.branch(pos >= z3.ToReal(n)):
        return zr(e.list_get(s, Sym("int", n - 1)))
    k = z3.ToInt(pos)
    lo, hi = zr(e.list_get(s, Sym("int", k - 1))), zr(e.list_get(s, Sym("int", k)))
    return lo + (pos - z3.ToReal(k)) * (hi - lo)


def setup(p):
    n, count = p.int("n").t, p.int("count")
    p.assume(z3.And(n >= 1, count.t >= n))
    h, vals = hist(p, count, n)
    s = p.listof(vals)
    p.e.sort_list(s)
    return target(p, h), s, n


@section("percentiles of one value")
def pct_one(p):
    def one():
        o, s, n = setup(p)
        q = p.float("p")
        p.assume(z3.And(q.t >= 0, q.t <= 1))
        got = p.no_raise(lambda: p.m(o, "percentiles", q))
        items = p.e.concrete_items(got)
        p.prove(len(items) == 1, "one percentile asked for, one returned")
        r = zr(items[0])
        first, last = zr(p.e.list_get(s, 0)), zr(p.e.list_get(s, Sym("int", n - 1)))
        p.prove(r == formula(p, s, n, q.t), "is the linear interpolation at rank p * (n + 1)")
        p.prove(z3.And(first <= r, r <= last), "lies between the smallest and the largest retained value")
    p.paths(one)


@section("percentiles are monotone in p")
def pct_two(p):
    def one():
        o, s, n = setup(p)
        a, b = p.float("p"), p.float("q")
        p.assume(z3.And(a.t >= 0, a.t <= b.t, b.t <= 1))
        got = p.no_raise(lambda: p.m(o, "percentiles", a, b))
        x, y = [zr(v) for v in p.e.concrete_items(got)]
        fa, fb = formula(p, s, n, a.t), formula(p, s, n, b.t)
        p.prove(x == fa, "the first percentile does not depend on the others")
        p.prove(y == fb, "the second percentile does not depend on the others")
        p.prove(fa <= fb, "percentiles do not decrease as p increases")
    p.paths(one)


@section("percentiles of nothing")
def pct_none(p):
    def one():
        h, vals = hist(p, 0, 0)
        o = target(p, h)
        got = p.no_raise(lambda: p.m(o, "percentiles", p.float("p"), p.float("q")))
        p.eq(got, p.list(0, 0), "are zero")
        bins = p.e.concrete_items(p.no_raise(lambda: p.m(h, "histogram")))
        p.prove(all(x == 0 for x in bins), "an empty histogram is all zero")
        o, s, n = setup(p)
        p.eq(p.no_raise(lambda: p.m(o, "percentiles")), p.list(), "none asked for, none returned")
    p.paths(one)


class Bins(Invariant):
    """After k values no bin is negative and the bins add up to k."""

    def __init__(self, p, owner):
        Invariant.__init__(self)
        self.p, self.owner = p, owner

    def discover(self, e, s, cb):
        t = sorted({a for a, f in e.touched(s, cb) if isinstance(e.heap[a], HList)}, key=str)
        if len(t) != 1:
            raise Unsupported("the loop over the values changes %d lists" % len(t))
        self.addr = t[0]
        self.n = e.segs_len(e.heap[self.addr].segs)
        self.k0 = 0

    def havoc(self, e, k):
        self.base = e.raw_base("bins", "float", n=zi(self.n), facts=[lambda e, i, v: [zr(v) >= 0]])
        e.heap[self.addr].segs = [self.base]
        self.total(e)

    def total(self, e):
        return zr(e.agg(e.heap[self.addr].segs, "self", lambda v: zr(v), "float"))

    def frame(self, e):
        return {(self.addr, None)}

    def check(self, e, k):
        return [("the bins add up to the number of values", self.total(e) == z3.ToReal(zi(k))),
                ("the number of bins", zi(e.segs_len(e.heap[self.addr].segs)) == zi(self.n))]

    def prove_more(self, e, k, when):
        nonneg(self.p, e.heap[self.addr].segs, "no bin is negative %s" % when)


def nonneg(p, segs, name):
    """Every element is >= 0, at an arbitrary index."""
    e = p.e

    def one():
        j = e.fresh("int", "j").t
        n = zi(e.segs_len(segs))
        e.assume(z3.And(j >= 0, j < n))
        v = e.split_at(e.norm_segs(list(segs)), j)[1]
        p.prove(zr(v) >= 0, name)
    e.explore(one)


@section("HistogramMetricReporter.histogram")
def histogram(p):
    def one():
        n, count = p.int("n").t, p.int("count")
        p.assume(z3.And(n >= 1, count.t >= n))
        h, vals = hist(p, count, n)
        p.e.invariants.append(lambda e, seg, base, src: Bins(p, h) if base.root.name == vals.name else None)
        r = p.no_raise(lambda: p.m(h, "histogram"))
        segs = p.e.obj(r).segs
        p.prove(zr(p.e.agg(segs, "self", lambda v: zr(v), "float")) == z3.ToReal(n),
                "the bins add up to the number of retained values")
        nonneg(p, segs, "no bin is negative")
    p.paths(one)


@section("get_values")
def values(p):
    def one():
        n = p.int("n").t
        p.assume(n >= 0)
        h, vals = hist(p, p.int("count"), n)
        o = target(p, h)
        p.eq(p.no_raise(lambda: p.m(o, "get_values")), p.listof(vals), "are the sample's")
    p.paths(one)
