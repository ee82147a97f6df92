"""What the contract files share: arbitrary states of the server's objects."""
import z3
from pyded.core import (Builtin, HDict, HEnv, HInst, HList, Ref, Stub, Sym, Unsupported, lift, zi, zr, zs)
from pyded.proof import Proof

PROC = "txstatsd.server.processor:"
CONF = "txstatsd.server.configurableprocessor:"
LOGP = "txstatsd.server.loggingprocessor:"
METER = "txstatsd.metrics.metermetric:MeterMetricReporter"
TIMER = "txstatsd.metrics.timermetric:TimerMetricReporter"
HIST = "txstatsd.metrics.histogrammetric:HistogramMetricReporter"
COUNTER = "txstatsd.metrics.countermetric:CounterMetricReporter"
GAUGE = "txstatsd.metrics.gaugemetric:GaugeMetricReporter"


def rnd(p, x, d=6):
    if isinstance(x, Sym):
        x = lift(x.kind, z3.simplify(x.t))
    return p.e.call(p.e.builtins["round"], [x, d], {})


def add(p, a, b):
    return p.e.binop("Add", a, b)


def clock(p, increasing=False):
    """A time function whose results are unconstrained (or never decrease)."""
    state = {"last": None}

    def f(e, args, kw):
        t = e.fresh("float", "now")
        return t
    return Builtin("clock", f)


def cat(p, *parts):
    r = parts[0]
    for x in parts[1:]:
        r = p.e.binop("Add", r, x)
    return r


def dotted(p, prefix, *rest):
    """prefix.rest when the prefix is not empty, else rest."""
    if p.e.branch(p.e.truth(prefix)):
        return cat(p, prefix, ".", *rest)
    return cat(p, prefix, *rest)


def a_deferred(p, **attrs):
    """A Deferred that has not fired: adding callbacks to it gives it back."""
    d = p.stub("deferred", dict(attrs))
    for k in ("addCallback", "addErrback", "addCallbacks", "addBoth"):
        was = d.attrs.get(k)
        d.attrs[k] = Builtin(k, lambda e, a, kw, was=was: (was and e.call(was, list(a), kw), d)[1])
    return d
