"""Samples that arrive while a flush is part-way through: what is kept at every yield, for one arbitrary metric t."""
import z3
from pyded.core import HDict, HList, NonFin, Ref, Sym, Unsupported, zi, zr
from pyded.proof import PyExc
from pyded.seqs import Invariant, Rest
from contracts.common import *


def rows(p, v):
    """The data points of one yield."""
    out = []
    p.e.iterate(v, out.append)
    return out


def number(p, text):
    """The finite number that a text denotes, or None."""
    try:
        v = p.e.call(p.e.builtins["float"], [text], {})
    except PyExc as x:
        p.prove(x.cls.name == "ValueError", "float raises ValueError")
        return None
    return None if isinstance(v, NonFin) else v


class Flushing(Invariant):
    """The loop of a flush over the metrics in a dict.  The environment runs at every yield: it may change every entry (but
    the tracked one only by adding to it) and create new ones.  Subclasses say what an entry is and what is tracked:
      other(i): an arbitrary entry;  havoc_tracked(k), havoc_new();  arrive(v): a sample for the tracked entry v, in place or not;
      reported(k, rows): what was yielded for the tracked entry;  check(e, k)."""

    def __init__(self, p, d):
        Invariant.__init__(self)
        self.p, self.d = p, d
        r = p.e.obj(d).rest
        self.rest, self.n = r, zi(r.keys.n)
        self.t = p.int("t").t
        p.assume(z3.And(self.t >= 0, self.t < self.n))
        self.newkey = p.str("new_name")
        p.assume(z3.Not(r.has(self.newkey.t)))
        self.now = None
        self.arrived = False
        p.e.invariants.append(lambda e, seg, base, src: self if base.root is r.keys.root else None)

    def key(self, i):
        return self.p.e.elem(self.rest.keys, i)

    def owner(self):
        """The dict that new samples go to."""
        return self.d

    def place(self, tracked, new):
        """The dict with arbitrary entries apart from the tracked and the new one."""
        e, r = self.p.e, self.rest
        vals = self.values()
        ents = [[self.key(self.t), tracked, self.t, tracked]] + ([] if new is None else [[self.newkey, new, None, None]])
        e.heap[self.d.a] = HDict(ents, Rest(r.keys, vals, r.pos, r.has, (self.t,)))

    def entry(self, k):
        v = self.p.e.dict_get(self.d, k)
        if v is None:
            raise Unsupported("a metric disappears during a flush")
        return v

    def havoc(self, e, k):
        self.now = k
        tracked = self.havoc_tracked(k)
        new = self.havoc_new() if e.choose(2) else None
        self.new = self.snap(new)
        self.place(tracked, new)

    def snap(self, v):
        """The value of a new entry now (of its contents, if it is mutable)."""
        return v

    def frame(self, e):
        return {(self.d.a, None)} | self.more_frame()

    def more_frame(self):
        return set()

    def consume(self, v):
        """A yield of the flush, then the environment."""
        p = self.p
        if self.now is None:
            p.prove(False, "only metrics that existed when the flush began are reported")
            return
        got = rows(p, v)
        k = self.now
        if p.e.branch(k == self.t):
            self.reported(got)
        else:
            self.other_reported(k, got)
        self.after(p.e, k)
        tracked = self.arrive(self.entry(self.key(self.t)))
        self.arrived = True
        new = p.e.dict_get(self.d, self.newkey)
        if new is None and p.e.choose(2):
            new = self.havoc_new()
        self.new = self.snap(new)
        self.place(tracked, new)

    def after(self, e, k):
        """The environment's own changes are no part of the loop; a new metric stays as it is."""
        new = e.dict_get(self.d, self.newkey)
        self.p.prove((new is None) == (self.new is None), "a flush creates and removes no metric")
        if new is not None and self.new is not None:
            self.same_entry(new, self.new)


KINDS = ["counter", "timer", "gauge", "meter", "plugin"]


def batches(p, name):
    """Any number of batches, each of any number of data points (opaque)."""
    N = z3.Function(p.e.name(name + "_size"), z3.IntSort(), z3.IntSort())
    fam = p.e.family(name + "_point", "int", lambda i: N(zi(i)))
    return p.base(name, None, mk=lambda e, i: p.listof(fam.get([zi(i)])), facts=[lambda e, i, v: [N(zi(i)) >= 0]])


def all_points(p, base, out):
    p.e.iterate(p.listof(base), lambda b: p.e.iterate(b, lambda x: p.e.list_append(out, x)))


def forwards(p, o):
    """MessageProcessor.flush on any batches: every data point, once, in order, and what the summary is told."""
    e = p.e
    calls, given = {}, {}

    def kind(k):
        def f(eng, func, args, kw):
            calls.setdefault(k, []).append(list(args[1:]) + [v for _, v in sorted(kw.items())])
            if k not in given:
                given[k] = batches(p, k)
            return p.listof(given[k])
        return f
    for k in KINDS + ["summary"]:
        for c in (PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor"):
            e.contracts["%s.flush_%s" % (c, k + "_metrics" if k != "summary" else "metrics_summary")] = kind(k)
    interval, percent, t = p.int("interval"), p.int("percent"), p.float("now")
    first = []

    def now(eng, a, kw):
        x = eng.fresh("float", "clock")
        first.append(x)
        return x
    p.set(o, "time_function", Builtin("time_function", now))
    got, want = p.trace(), p.trace()
    args = e.choose(3)
    call = [lambda: p.m(o, "flush"), lambda: p.m(o, "flush", interval, percent), lambda: p.m(o, "flush", interval=interval, percent=percent)][args]
    p.no_raise(lambda: e.iterate(call(), lambda x: e.list_append(got, x)))
    if not args:
        interval, percent = 10000, 90
    for k in KINDS + ["summary"]:
        p.prove(len(calls.get(k, ())) == 1, "each kind of metric is flushed once: %s" % k)
        if k not in given:
            return
        all_points(p, given[k], want)
    p.eq(got, want, "a flush yields each data point exactly once, in order")
    ts = e.call(e.builtins["int"], [first[0]], {})
    secs = Sym("float", zr(interval) / 1000)
    for k, want_args in [("counter", [secs, ts]), ("timer", [percent, ts]), ("gauge", [ts]), ("meter", [ts]), ("plugin", [secs, ts])]:
        p.eq(p.list(*calls[k][0]), p.list(*want_args), "%s metrics are flushed with the interval in seconds, the percentile, and the second at which the flush began" % k)
    num, per, at = calls["summary"][0]
    p.eq(at, ts, "the summary carries the same timestamp")
    total = 0
    for k in KINDS:
        n = e.list_len(p.listof(given[k]))
        total = e.binop("Add", total, n)
        v = e.dict_get(per, k)
        p.prove(v is not None, "the summary has an entry for %s" % k)
        if v is not None:
            p.eq(v[0], n, "with the number of %s metrics flushed" % k)
    p.eq(e.dict_len(per), len(KINDS), "and no other")
    p.eq(num, total, "and their total")
