"""EWMA: the defining recurrence, each amount counted once, and boundedness."""
from fractions import Fraction

import z3
from pyded.core import Sym, zr, zi
from pyded.proof import section

EWMA = "txstatsd.stats.ewma:Ewma"
TITLE = "EWMA recurrence and bounds"


def arbitrary(p, kind, seen):
    """Any Ewma that can be reached: alpha, interval > 0, the amount counted since the last tick, the rate, and whether
    there was a tick before; built by the real constructor."""
    alpha, interval = p.float("alpha"), p.float("interval")
    p.assume(interval.t > 0)
    o = p.new(EWMA, alpha, interval)
    counted = p.int("counted") if kind == "int" else p.float("counted")
    p.set(o, "uncounted", counted)
    if seen:
        rate = p.float("rate")
        p.set(o, "rate", rate)
        p.set(o, "initialized", True)
    return o, alpha, interval, counted


@section("Ewma.__init__")
def init(p):
    def one():
        alpha, interval = p.float("alpha"), p.float("interval")
        o = p.new(EWMA, alpha, interval)
        p.eq(p.a(o, "rate"), 0, "a new EWMA has rate 0")
        p.eq(p.a(o, "uncounted"), 0, "a new EWMA has counted nothing")
        p.eq(p.a(o, "initialized"), False, "a new EWMA has seen no tick")
        p.eq(p.a(o, "alpha"), alpha, "alpha is the one given")
        p.eq(p.a(o, "interval"), interval, "interval is the one given")
    p.paths(one)


@section("Ewma.one_minute_ewma, five_minute_ewma, fifteen_minute_ewma")
def presets(p):
    def one():
        for name, minutes in (("one_minute_ewma", 1), ("five_minute_ewma", 5), ("fifteen_minute_ewma", 15)):
            o = p.m(p.get(EWMA), name)
            p.eq(p.a(o, "interval"), 5, "%s ticks every 5 seconds" % name)
            a = zr(p.a(o, "alpha"))
            p.prove(z3.And(a >= 0, a <= 1), "%s has 0 <= alpha <= 1" % name)
    p.paths(one)


@section("Ewma.update")
def update(p):
    def one():
        for kind in ("int", "float"):
            for seen in (False, True):
                o, alpha, interval, counted = arbitrary(p, kind, seen)
                before = p.a(o, "rate")
                n = p.int("n") if kind == "int" else p.float("n")
                p.no_raise(lambda: p.m(o, "update", n))
                p.eq(p.a(o, "uncounted"), p.e.binop("Add", counted, n), "the amount is added to what is uncounted")
                p.eq(p.a(o, "rate"), before, "the rate is unchanged")
                p.eq(p.a(o, "initialized"), seen, "no tick has been seen")
    p.paths(one)


@section("Ewma.tick")
def tick(p):
    def one():
        for kind in ("int", "float"):
            for seen in (False, True):
                o, alpha, interval, counted = arbitrary(p, kind, seen)
                prev = zr(p.a(o, "rate"))
                p.no_raise(lambda: p.m(o, "tick"))
                per_tick = zr(counted) / interval.t
                want = alpha.t * per_tick + (1 - alpha.t) * prev if seen else per_tick
                p.prove(zr(p.a(o, "rate")) == want, "rate after %s tick" % ("a later" if seen else "the first"))
                p.eq(p.a(o, "uncounted"), 0, "what was counted enters this tick only")
                p.eq(p.a(o, "initialized"), True, "later ticks are not first")
                p.eq(p.a(o, "alpha"), alpha, "alpha is kept")
                p.eq(p.a(o, "interval"), interval, "interval is kept")
    p.paths(one)


@section("boundedness lemma over tick's contract")
def bounded(p):
    """Invariant of every history: after the first tick lo <= rate <= hi, for lo and hi the smallest and largest
    per-tick rates so far.  Established by the first tick, kept by every later one, untouched by update."""
    def one():
        for seen in (False, True):
            o, alpha, interval, counted = arbitrary(p, "float", seen)
            p.assume(z3.And(alpha.t >= 0, alpha.t <= 1))
            lo, hi = p.float("lo"), p.float("hi")
            per_tick = zr(counted) / interval.t
            if seen:
                r = zr(p.a(o, "rate"))
                p.assume(z3.And(lo.t <= r, r <= hi.t))
                lo2 = z3.If(per_tick < lo.t, per_tick, lo.t)
                hi2 = z3.If(per_tick > hi.t, per_tick, hi.t)
            else:
                lo2 = hi2 = per_tick
            p.m(o, "tick")
            # Skolem names keep the query small
            x = zr(p.a(o, "rate"))
            p.prove(x >= lo2, "not below the smallest per-tick rate")
            p.prove(x <= hi2, "not above the largest per-tick rate")
    p.paths(one)
