"""One line, any text, in any state of the processor, in the three modes: nothing is raised; at most the one metric that the
line's type and name identify is created or changed, and that exactly when the line is a sample."""
import z3
from pyded.core import HInst, HList, NonFin, Sym, zi, zr
from pyded.proof import PyExc, section
from contracts import C20
from contracts.common import *
from contracts.flush import number

MP, CP, LP = PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor", LOGP + "LoggingMessageProcessor"
SLI = "txstatsd.metrics.slimetric:SLIMetricReporter"
FUNCTIONS = ["BaseMessageProcessor.process/fail", "MessageProcessor.process_message/process_*_metric/compose_*_metric/get_message_prefix",
             "ConfigurableMessageProcessor.process_counter_metric/compose_*_metric/get_message_prefix", "LoggingMessageProcessor.process_message",
             "parse_value", "MeterMetricReporter/CounterMetricReporter/GaugeMetricReporter.__init__/mark", "TimerMetricReporter.__init__",
             "SLIMetricReporter.process/update"]
TRUSTED = ["float(text) is the number written, or raises ValueError; it does so for text with a colon", "str.strip, str.split",
           "re: the sample rate pattern accepts '@' and a decimal number without a sign (its group is then read with float)",
           "TimerMetricReporter.update raises nothing for a finite value and changes only its reporter (C07, C09)",
           "normalize_key raises nothing (C02)", "log.msg raises nothing"]
ASSUMPTIONS = ["a plugin's build_metric raises nothing, and its metric's process raises only TypeError or ValueError, leaving the metric as it was (the SLI plugin's: proved)",
               "the logger of dump mode raises nothing", "the self-statistics (receive.*) are not among the metrics meant"]
KINDS = ["c", "ms", "g", "m", "x"]
ATTR = {"c": "counter_metrics", "ms": "timer_metrics", "g": "gauge_metrics", "m": "meter_metrics", "x": "plugin_metrics"}


@section("BaseMessageProcessor.process")
def process(p):
    def one():
        handled, failed = p.trace(), p.trace()
        norm = z3.Function("normalised", z3.StringSort(), z3.StringSort())
        p.e.contracts[PROC + "normalize_key"] = lambda e, f, a, k: Sym("str", norm(zs(a[0])))
        path = [MP, CP, LP][p.e.choose(3)]
        for c in (MP, CP, LP):
            p.e.contracts[c + ".process_message"] = lambda e, f, a, k: e.list_append(handled, tuple(a[1:]))
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        o = p.new(path, *([p.stub("logger", {"info": Builtin("info", lambda e, a, k: None)})] if path == LP else []))
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "process", line))
        # the specification: strip, then name ':' fields separated by '|', two or three of them
        text = p.m(line, "strip")
        halves = p.m(text, "split", ":", 1)
        ok = p.e.branch(p.e.eq(p.e.list_len(halves), 2))
        if ok:
            fields = p.m(p.e.list_get(halves, 1), "split", "|")
            n = p.e.list_len(fields)
            ok = p.e.branch(p.e.eq(n, 2)) or p.e.branch(p.e.eq(n, 3))
        if not ok:
            p.eq(handled, p.list(), "a line that is not name:value|type or name:value|type|extra is not handled")
            p.eq(failed, p.list(line), "but discarded")
            return
        p.eq(failed, p.list(), "a well-formed line is not discarded here")
        p.eq(handled, p.list((line, p.e.list_get(fields, 1), Sym("str", norm(zs(p.e.list_get(halves, 0)))), fields)), "and handled once, with its type, normalised name and fields")
    p.paths(one)


@section("BaseMessageProcessor.fail")
def fail(p):
    def one():
        o = p.no_raise(lambda: p.new(PROC + "BaseMessageProcessor"))
        logs = p.trace()
        p.external("twisted.python.log.msg", lambda e, a, k: e.list_append(logs, tuple(a)))
        p.no_raise(lambda: p.m(o, "fail", p.str("line")))
        p.eq(p.e.obj(o).attrs and 1 or 0, 0, "discarding changes nothing")
    p.paths(one)


class State(object):
    """A processor of any mode in an arbitrary state."""

    def __init__(self, p, mode, refuses):
        self.p = p
        self.mode = mode
        e = p.e
        F = lambda n, s=z3.RealSort(): z3.Function(n, z3.IntSort(), s)
        self.updated = p.trace()
        self.failed = p.trace()
        self.processed = p.trace()
        self.refuses = refuses
        plugin = p.stub("plugin", {"metric_type": "x", "name": p.str("plugin_name"), "build_metric": Builtin("build_metric", self.build)})
        kw = {"plugins": p.list(plugin)}
        path = [MP, CP, LP][self.mode]
        args = [p.stub("logger", {"info": Builtin("info", lambda e, a, k: None)})] if self.mode == 2 else []
        if self.mode:
            kw["message_prefix"] = p.str("prefix")
        o = self.o = p.no_raise(lambda: p.new(path, *args, time_function=clock(p), **kw))
        e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(self.failed, a[1])
        e.contracts[TIMER + ".update"] = lambda e, f, a, k: e.list_append(self.updated, (a[0], a[1]))
        inst = lambda path, **attrs: (lambda e, i, k: e.alloc(HInst(p.get(path), dict({n: Sym("float", f(zi(i))) for n, f in attrs.items()}, name=k, prefix=""))))
        plain = {"c": lambda e, i, k: Sym("float", F("count")(zi(i))), "m": inst(METER, value=F("mvalue"), count=F("mcount"), poll_time=F("mpoll")),
                 "x": lambda e, i, k: p.stub("metric", {"process": Builtin("process", lambda e2, a, kw: self.take(k, a))})}
        conf = dict(plain, c=inst(COUNTER, count=F("count")), g=inst(GAUGE, value=F("gvalue")), ms=inst(TIMER, count=F("tcount"), last_time=F("tlast")))
        if not self.mode:
            N = F("nsamples", z3.IntSort())
            fam = e.family("samples", "float", lambda i: N(zi(i)))
            plain["ms"] = lambda e, i, k: p.listof(fam.get([zi(i)]))
            b = p.base("gauges", None, mk=lambda e, i: p.list(Sym("float", F("gvalue")(zi(i))), Sym("str", F("gkey", z3.StringSort())(zi(i)))))
            e.heap[p.a(o, "gauge_metrics").a].segs = [b]
        for k, mk in (conf if self.mode else plain).items():
            p.set(o, ATTR[k], e.sym_dict(ATTR[k], mk, mutable=True, **({"scalar": "float"} if k == "c" and not self.mode else {})))
        n = lambda name: e.sym_dict(name, lambda e, i, k: Sym("int", F(name, z3.IntSort())(zi(i))), scalar="int")
        p.set(o, "by_type", n("by_type"))
        p.set(o, "process_timings", n("process_timings"))

    def build(self, e, a, k):
        key = k.get("name")
        return self.p.stub("metric", {"process": Builtin("process", lambda e2, a2, k2: self.take(key, a2))})

    def take(self, key, a):
        if self.refuses:
            self.p.e.throw(["ValueError", "TypeError"][self.p.e.choose(2)])
        self.p.e.list_append(self.processed, (key, a[0]))

    def snap(self, kind, key):
        """What there is under a name."""
        p = self.p
        c = p.a(self.o, ATTR[kind])
        if kind == "g" and not self.mode:
            r = p.list()
            p.e.list_extend(r, c)
            return r
        v = p.e.dict_get(c, key)
        if v is None or isinstance(v, Sym):
            return v
        if isinstance(v, Stub):
            return v
        h = p.e.obj(v)
        if isinstance(h, HInst):
            return (v, p.list(*["%s" % n for n in sorted(h.attrs)]), tuple(h.attrs[n] for n in sorted(h.attrs)))
        r = p.list()
        p.e.list_extend(r, v)
        return r

    def same(self, a, b, what):
        if a is None or b is None:
            self.p.prove(a is None and b is None, what)
        elif isinstance(a, Stub) or isinstance(b, Stub):
            self.p.prove(a is b, what)
        else:
            self.p.eq(a, b, what)


def lines(name, mode, kind, observed):
    """Lines of one type in one mode; `observed`: the kinds of metrics looked at, one on each path."""
    @section(name)
    def body(p):
        def one():
            s = State(p, mode, kind == "x" and p.e.choose(2))
            key, other, message, typ, v, extra = (p.str(n) for n in ("key", "other", "message", "type", "value", "extra"))
            p.assume(key.t != other.t)
            if kind is not None:
                typ = kind
            else:
                for k in KINDS:
                    p.assume(typ.t != z3.StringVal(k))
            colon = kind in ("g", "m") and p.e.choose(2)
            if colon:
                first = p.str("value_head")
                p.e.strspec[first.t.sexpr()] = {"without": ":"}
                v = cat(p, first, ":", p.str("value_tail"))
            elif kind in ("g", "m"):
                p.e.strspec[v.t.sexpr()] = {"without": ":"}
            three = p.e.choose(2)
            fields = p.list(v, typ, extra) if three else p.list(v, typ)
            look = observed[p.e.choose(len(observed))]
            who = [key, other][p.e.choose(2)]
            was = s.snap(look, who)
            p.no_raise(lambda: p.m(s.o, "process_message", message, typ, key, fields))
            # is it a sample?
            if kind is None:
                ok = False
            elif kind == "x":
                ok = not s.refuses
            else:
                value = None if colon else number(p, v)
                ok = value is not None
                if ok and kind == "c" and not mode and three:
                    rate = rate_of(p, extra)
                    ok = rate is not None and p.e.branch(p.e.lt(0, rate))
            if look == "g" and not mode:
                want = p.list()
                p.e.list_extend(want, was)
                if ok and kind == "g":
                    p.e.list_append(want, p.list(value, key))
                p.eq(s.snap("g", key), want, "a gauge sample adds one value to the received gauges; other lines none")
            elif who is other:
                s.same(s.snap(look, other), was, "metrics of other names are as before (%s)" % look)
            elif look != kind or not ok:
                s.same(s.snap(look, key), was, "a line changes no metric of another type, and none when it is not a sample (%s)" % look)
            else:
                created(p, s, kind, key, was, value if kind != "x" else None, fields)
            if not ok:
                p.eq(s.failed, p.list(message), "what is not a sample is discarded, once")
                p.eq(s.updated, p.list(), "and reaches no timer")
                p.eq(s.processed, p.list(), "and no plugin's metric")
                return
            p.eq(s.failed, p.list(), "a sample is not discarded")
            p.eq(p.e.list_len(s.updated), 1 if kind == "ms" and mode else 0, "only a timer sample updates a timer")
            p.eq(p.e.list_len(s.processed), 1 if kind == "x" else 0, "only a plugin's sample reaches its metric")
        p.paths(one)


def created(p, s, kind, key, was, value, fields):
    """After a sample there is a metric of its name: the one there was, or a new one."""
    now = p.e.dict_get(p.a(s.o, ATTR[kind]), key)
    p.prove(now is not None, "after a sample its metric exists")
    if now is None:
        return
    if kind == "ms" and s.mode:
        t, x = p.e.list_get(s.updated, 0)
        p.same(t, now, "the timer updated is the one of that name")
        p.eq(x, value, "with the value")
    if kind == "x":
        k, f = p.e.list_get(s.processed, 0)
        p.eq(k, key, "the plugin's metric of that name")
        p.eq(f, fields, "is given the fields")
    if isinstance(was, tuple):
        p.same(now, was[0], "an existing metric is the one that goes on")


for _mode, _m in enumerate(["MessageProcessor", "ConfigurableMessageProcessor", "LoggingMessageProcessor"]):
    for _k in KINDS + [None]:
        lines("%s: a line of %s" % (_m, "type %s" % _k if _k else "another type"), _mode, _k, KINDS)


def rate_of(p, extra):
    """The sample rate that an extra field denotes, if it denotes one."""
    rx = p.e.call(p.e.extern["re.compile"], [r"^@([\d\.]+(?:[eE][-+]?\d+)?)"], {})
    m = p.m(rx, "match", extra)
    if m is None:
        return None
    rate = number(p, p.m(m, "group", 1))
    if rate is not None:
        p.assume(rate.t >= 0)       # (the group has no sign)
    return rate


# The plugin that ships with txstatsd meets what is assumed of plugins above.
section("SLIMetricReporter.process")(C20.process)
section("SLIMetricReporter.update")(C20.update)
