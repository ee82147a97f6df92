"""Configurable timers: ghost state of the window — n durations with sum T, sum of squares Q, smallest mn, largest mx —
and the number N ever received."""
from fractions import Fraction

import z3
from pyded.core import Builtin, HInst, Stub, Sym, zi, zr
from pyded.proof import section
from contracts.common import *

TRUSTED = ["math.sqrt(x) is the non-negative real whose square is x; round() is one function of its arguments"]
ASSUMPTIONS = ["durations are finite numbers (the server passes parse_value(text))",
               "the percentiles of a report are C08's; here they are whatever percentiles() returns for 0.99 and 0.999"]
FUNCTIONS = ["TimerMetricReporter.__init__", "TimerMetricReporter.clear", "TimerMetricReporter.update",
             "TimerMetricReporter.report", "TimerMetricReporter.rate", "TimerMetricReporter.min/max/mean/std_dev",
             "HistogramMetricReporter.__init__", "HistogramMetricReporter.clear", "HistogramMetricReporter.update",
             "HistogramMetricReporter.update_variance", "HistogramMetricReporter.set_min/set_max",
             "HistogramMetricReporter.get_variance", "ConfigurableMessageProcessor.compose_timer_metric",
             "ConfigurableMessageProcessor.flush_timer_metrics"]


class G(object):
    pass


def sample_stub(p, log):
    """The sample, by C09's contract: update(v) records v, clear() empties it."""
    return p.stub("sample", {"update": p.recorder(log, "update"), "clear": p.recorder(log, "clear")})


def holds(p, h, g, n):
    """The invariant of a histogram whose window has n durations (n a term or 0)."""
    cs = [("count is the number of durations", zi(p.a(h, "count")) == zi(n))]
    if isinstance(n, int) and n == 0:
        return cs
    m, s = p.e.concrete_items(p.a(h, "variance"))
    n = z3.ToReal(zi(n))
    return cs + [("the sum is exact", zr(p.a(h, "_sum")) == g.T), ("the minimum is exact", zr(p.a(h, "_min")) == g.mn),
                 ("the maximum is exact", zr(p.a(h, "_max")) == g.mx), ("M is the mean", n * zr(m) == g.T),
                 ("S is the sum of squared deviations", zr(s) == g.Q - n * zr(m) * zr(m))]


def window(p, empty, log=None):
    """A histogram with an arbitrary window, made by the real constructor."""
    log = p.trace() if log is None else log
    h = p.new(HIST, sample_stub(p, log), prefix="")
    p.e.obj(log).segs = []
    g = G()
    g.n, g.T, g.Q, g.mn, g.mx = 0, 0, 0, None, None
    if not empty:
        n = p.int("n")
        g.n, g.T, g.Q, g.mn, g.mx = n.t, p.float("T").t, p.float("Q").t, p.float("min").t, p.float("max").t
        M = p.float("M")
        nr = z3.ToReal(n.t)
        p.assume(z3.And(n.t >= 1, g.mn <= g.mx, nr * M.t == g.T, nr * g.mn <= g.T, g.T <= nr * g.mx, g.mn >= 0))
        S = Sym("float", p.float("S").t)
        p.assume(S.t == g.Q - nr * M.t * M.t)
        p.assume(S.t >= 0)              # a sum of squared deviations
        p.assume(z3.Implies(n.t == 1, z3.And(g.mn == g.T, g.mx == g.T, S.t == 0)))
        p.set(h, "count", n)
        p.set(h, "_sum", Sym("float", g.T))
        p.set(h, "_min", Sym("float", g.mn))
        p.set(h, "_max", Sym("float", g.mx))
        p.set(h, "variance", p.list(M, S))
        g.S = S.t
    return h, g, log


@section("HistogramMetricReporter.__init__ and clear")
def hist_clear(p):
    def one():
        log = p.trace()
        h = p.no_raise(lambda: p.new(HIST, sample_stub(p, log), prefix=""))
        p.eq(p.a(h, "count"), 0, "a new histogram is empty")
        p.eq(log, p.list(("clear",)), "its sample is cleared")
        for empty in (True, False):
            h, g, log = window(p, empty)
            p.no_raise(lambda: p.m(h, "clear"))
            p.eq(p.a(h, "count"), 0, "a cleared histogram is empty")
            p.eq(log, p.list(("clear",)), "its sample is cleared once")
            for q in ("min", "max", "mean", "std_dev"):
                p.eq(p.m(h, q), 0, "%s of an empty window is zero" % q)
    p.paths(one)


@section("HistogramMetricReporter.update")
def hist_update(p):
    def one():
        for empty in (True, False):
            h, g, log = window(p, empty)
            d = p.float("d")
            p.assume(d.t >= 0)
            p.no_raise(lambda: p.m(h, "update", d))
            if empty:
                g.n, g.T, g.Q, g.mn, g.mx = 1, d.t, d.t * d.t, d.t, d.t
            else:
                g.n, g.T, g.Q = g.n + 1, g.T + d.t, g.Q + d.t * d.t
                g.mn, g.mx = z3.If(d.t < g.mn, d.t, g.mn), z3.If(d.t > g.mx, d.t, g.mx)
            for nm, c in holds(p, h, g, g.n):
                p.prove(c, nm)
            s = zr(p.e.concrete_items(p.a(h, "variance"))[1])
            p.prove(s >= 0, "the squared deviations are not negative")
            p.eq(log, p.list(("update", d)), "the sample records the value once")
    p.paths(one)


@section("HistogramMetricReporter.min, max, mean, std_dev, get_variance")
def hist_read(p):
    def one():
        h, g, log = window(p, False)
        n = z3.ToReal(g.n)
        p.prove(zr(p.m(h, "min")) == g.mn, "min")
        p.prove(zr(p.m(h, "max")) == g.mx, "max")
        p.prove(zr(p.m(h, "mean")) * n == g.T, "mean is the sum divided by the number")
        v = zr(p.m(h, "get_variance"))
        sd = zr(p.no_raise(lambda: p.m(h, "std_dev")))
        p.prove(sd >= 0, "the standard deviation is not negative")
        if p.e.branch(g.n == 1):
            p.prove(sd == 0, "the standard deviation of one duration is zero")
        else:
            p.prove(sd * sd == v, "the standard deviation is the root of the variance")
            p.prove(v * (n - 1) * n == g.Q * n - g.T * g.T, "the variance is that of the sample (n - 1)")
        p.eq(log, p.list(), "reading changes nothing")
    p.paths(one)


def timer(p, empty):
    """A TimerMetricReporter with an arbitrary window, made by the real constructor."""
    name, prefix = p.str("name"), p.str("prefix")
    o = p.new(TIMER, name, wall_time_func=clock(p), prefix=prefix)
    h, g, log = window(p, empty)
    p.set(o, "histogram", h)
    g.N, g.last = p.int("N").t, p.float("last").t
    p.set(o, "count", Sym("int", g.N))
    p.set(o, "last_time", Sym("float", g.last))
    return o, h, g, log, name, prefix


@section("TimerMetricReporter.__init__")
def timer_init(p):
    def one():
        now = p.float("now")
        o = p.no_raise(lambda: p.new(TIMER, p.str("name"), wall_time_func=Builtin("t", lambda e, a, k: now), prefix=p.str("prefix")))
        p.eq(p.a(o, "count"), 0, "no duration has been received")
        p.eq(p.a(p.a(o, "histogram"), "count"), 0, "the window is empty")
        p.eq(p.a(o, "last_time"), now, "the window begins now")
    p.paths(one)


@section("TimerMetricReporter.update")
def timer_update(p):
    def one():
        for empty in (True, False):
            o, h, g, log, _, _ = timer(p, empty)
            d = p.float("d")
            p.no_raise(lambda: p.m(o, "update", d))
            p.prove(zi(p.a(o, "count")) == g.N + 1, "count counts every duration")
            p.same(p.a(o, "histogram"), h, "the window goes on")
            p.prove(zr(p.a(o, "last_time")) == g.last, "the window's start is kept")
            if p.e.branch(d.t >= 0):
                p.eq(log, p.list(("update", d)), "a non-negative duration enters the window")
                p.prove(zi(p.a(h, "count")) == zi(g.n) + 1, "once")
            else:
                p.eq(log, p.list(), "a negative duration does not enter the window")
                for nm, c in holds(p, h, g, g.n):
                    p.prove(c, "unchanged: " + nm)
    p.paths(one)


@section("TimerMetricReporter.report")
def timer_report(p):
    PCT = z3.Function("percentile", z3.RealSort(), z3.RealSort())

    def pct(e, f, args, kw):
        return e.alloc(HList([[Sym("float", PCT(zr(x))) for x in args[1:]]]))

    def one():
        p.e.contracts[TIMER + ".percentiles"] = pct
        p.e.contracts[HIST + ".percentiles"] = pct
        for empty in (bool(p.e.choose(2)),):
            o, h, g, log, name, prefix = timer(p, empty)
            ts = p.float("timestamp") if p.e.choose(2) else p.int("timestamp")
            t = zr(ts)
            real_sqrt = p.e.extern["math.sqrt"]
            r = p.no_raise(lambda: p.m(o, "report", ts))
            n = g.n
            if empty:
                mn = mx = mean = z3.RealVal(0)
                sd = 0
            else:
                mn, mx, mean = g.mn, g.mx, g.T / z3.ToReal(n)
                if p.e.branch(n == 1):
                    sd = 0
                else:
                    # sqrt is applied to the sample variance (see get_variance's contract)
                    sd = p.e.call(real_sqrt, [Sym("float", g.S / (z3.ToReal(n) - 1))], {})
            rate = z3.RealVal(0)
            if p.e.branch(t > g.last):
                rate = z3.ToReal(zi(n)) / (t - g.last)
            full = dotted(p, prefix, name)
            want = {".min": mn, ".max": mx, ".mean": mean, ".stddev": zr(sd), ".rate": rate,
                    ".99percentile": PCT(zr(Fraction(99, 100))), ".999percentile": PCT(zr(Fraction(999, 1000)))}
            items = p.e.concrete_items(r)
            got = {}
            for it in items:
                it = p.e.unpack(it, 3)
                p.eq(it[2], ts, "every point carries the report's timestamp")
                for k in list(want) + [".count"]:
                    if p.valid(p.e.eq(it[0], cat(p, full, k))):
                        p.prove(k not in got, "each statistic once")
                        got[k] = it[1]
            p.prove(len(items) == 8 and len(got) == 8, "reports exactly the eight statistics under the timer's name")
            p.eq(got[".count"], rnd(p, Sym("int", g.N)), ".count is the number ever received")
            for k, w in want.items():
                p.eq(got[k], rnd(p, Sym("float", w)), "%s of the window, rounded to 6 decimals" % k)
            p.prove(rate >= 0, "the rate is not negative")
            p.eq(p.a(p.a(o, "histogram"), "count"), 0, "then the window is empty")
            p.same(p.a(o, "histogram"), h, "and its sample is kept")
            p.eq(log, p.list(("clear",)), "the sample is cleared, and only that")
            p.prove(zr(p.a(o, "last_time")) == t, "the next window begins at the report's timestamp")
            p.prove(zi(p.a(o, "count")) == g.N, "the number ever received goes on")
    p.paths(one)
