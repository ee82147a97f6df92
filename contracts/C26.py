"""The logging processor against the configurable one: it logs, and is otherwise the same."""
import z3
from pyded.core import HInst, HList, Sym, zi, zr
from pyded.proof import PyExc, section
from contracts.common import *

LP, CP, MP = LOGP + "LoggingMessageProcessor", CONF + "ConfigurableMessageProcessor", PROC + "MessageProcessor"
FUNCTIONS = ["LoggingMessageProcessor.__init__/process_message/flush", "BaseMessageProcessor.process (on it)",
             "all other methods of the processors, as found on it"]
TRUSTED = ["% formatting is a function of its arguments"]
ASSUMPTIONS = ["the logger's info() only records", "what the flush of the configurable processor yields are triples (C18)"]


def logger(p, trace):
    return p.stub("logger", {"info": p.recorder(trace)})


def built(p, trace, now):
    prefix, internal = p.str("prefix"), p.str("internal")
    plugins = p.e.choose(2)
    plug = None
    if plugins:
        P = z3.Function("plugin_type", z3.IntSort(), z3.StringSort())
        plug = p.listof(p.base("plugins", None, mk=lambda e, i: p.stub("plugin", {"metric_type": Sym("str", P(zi(i)))})))
    log = logger(p, trace)
    kw = [{}, {"message_prefix": prefix}, {"message_prefix": prefix, "internal_metrics_prefix": internal}][p.e.choose(3)]
    if plugins:
        kw = dict(kw, plugins=plug)
    return log, kw


@section("LoggingMessageProcessor.__init__")
def init(p):
    def one():
        logged = p.trace()
        now = Builtin("time", lambda e, a, k: 7)
        plug = None
        if p.e.choose(2):
            plug = p.list(p.stub("plugin", {"metric_type": p.str("t1")}), p.stub("plugin", {"metric_type": p.str("t2")}))
        prefix, internal = p.str("prefix"), p.str("internal")
        kw = [{}, {"message_prefix": prefix}, {"message_prefix": prefix, "internal_metrics_prefix": internal}][p.e.choose(3)]
        log = logger(p, logged)
        a = p.no_raise(lambda: p.new(LP, log, time_function=now, plugins=plug, **kw))
        b = p.no_raise(lambda: p.new(CP, time_function=now, plugins=plug, **kw))
        p.same(p.a(a, "logger"), log, "the logger is the one given")
        for n in sorted(p.e.obj(b).attrs):
            p.eq(p.a(a, n), p.a(b, n), "built like the configurable processor: %s" % n)
        p.eq(logged, p.list(), "nothing is logged yet")
    p.paths(one)


def fresh(p, logged):
    return p.no_raise(lambda: p.new(LP, logger(p, logged), clock(p), p.str("prefix")))


@section("LoggingMessageProcessor.process_message")
def process_message(p):
    def one():
        done = p.trace()        # log entries and handling, in one sequence
        o = p.no_raise(lambda: p.new(LP, p.stub("logger", {"info": Builtin("info", lambda e, a, k: e.list_append(done, ("log",) + tuple(a)))}), clock(p)))
        result = p.stub("result")
        raising = p.e.choose(2)

        def handle(e, f, a, k):
            e.list_append(done, ("handle",) + tuple(a[1:]))
            if raising:
                e.throw("RuntimeError")
            return result
        p.e.contracts[MP + ".process_message"] = p.e.contracts[CP + ".process_message"] = handle
        message, typ, key = (p.str(x) for x in ("message", "type", "key"))
        fields = p.listof(p.base("fields", "str", n=p.int("n")))
        want = p.list(("log", cat(p, "In: ", message)), ("handle", message, typ, key, fields))
        if raising:
            p.raises(lambda: p.m(o, "process_message", message, typ, key, fields), "RuntimeError", "raises what the handling raises")
        else:
            r = p.no_raise(lambda: p.m(o, "process_message", message, typ, key, fields))
            p.same(r, result, "and gives its result")
        p.eq(done, want, "the message is logged once, as received, then handled once as by the configurable processor")
    p.paths(one)


@section("BaseMessageProcessor.process of the logging processor")
def process(p):
    """Well-formed lines reach process_message with the line as received; the two processors pass on the same."""
    def one():
        logged, handled, failed = p.trace(), p.trace(), p.trace()
        o = fresh(p, logged)
        b = p.new(CP, clock(p), p.a(o, "message_prefix"))
        p.e.contracts[LP + ".process_message"] = lambda e, f, a, k: e.list_append(handled, tuple(a[1:]))
        p.e.contracts[MP + ".process_message"] = p.e.contracts[CP + ".process_message"] = p.e.contracts[LP + ".process_message"]
        p.e.contracts[PROC + "normalize_key"] = lambda e, f, a, k: Sym("str", z3.Function("normalised", z3.StringSort(), z3.StringSort())(zs(a[0])))
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        line = p.str("line")
        p.no_raise(lambda: p.m(b, "process", line))
        plain, bad = p.list(), p.list()
        p.e.list_extend(plain, handled)
        p.e.list_extend(bad, failed)
        handled2, failed2 = p.trace(), p.trace()
        handled, failed = handled2, failed2
        p.no_raise(lambda: p.m(o, "process", line))
        p.eq(handled2, plain, "passed on exactly as by the configurable processor")
        p.eq(failed2, bad, "and discarded exactly as by it")
        if p.valid(p.e.eq(p.e.list_len(plain), 1)):
            p.eq(p.e.list_get(plain, 0)[0], line, "a well-formed line is passed on as received")
    p.paths(one)


@section("LoggingMessageProcessor.flush")
def flush(p):
    def one():
        logged, out, asked = p.trace(), p.trace(), p.trace()
        o = p.no_raise(lambda: p.new(LP, logger(p, logged), clock(p)))
        V, T, N = (z3.Function(n, z3.IntSort(), s) for n, s in (("value", z3.RealSort()), ("stamp", z3.IntSort()), ("name", z3.StringSort())))
        b = p.base("flushed", None, mk=lambda e, i: (Sym("str", N(zi(i))), Sym("float", V(zi(i))), Sym("int", T(zi(i)))))

        def parent(e, f, a, k):
            e.list_append(asked, tuple(a[1:]) + tuple(v for _, v in sorted(k.items())))
            return p.listof(b)
        p.e.contracts[MP + ".flush"] = p.e.contracts[CP + ".flush"] = parent
        interval, percent = p.int("interval"), p.int("percent")
        args = p.e.choose(4)
        call = [lambda: p.m(o, "flush"), lambda: p.m(o, "flush", interval, percent), lambda: p.m(o, "flush", interval=interval, percent=percent),
                lambda: p.m(o, "flush", interval=interval)][args]
        p.no_raise(lambda: p.e.iterate(call(), lambda x: p.e.list_append(out, x)))
        want = p.trace()
        p.e.iterate(p.listof(b), lambda r: p.e.list_append(want, (p.e.binop("Mod", "Out: %s %s %s", r),)))
        p.eq(logged, want, "every data point is logged once, in order")
        p.eq(out, p.listof(b), "and passed on once, in order")
        p.eq(asked, p.list((interval if args else 10000, percent if args in (1, 2) else 90)), "from one flush of the configurable processor, with the same interval and percentile")
    p.paths(one)


INHERITED = {"process_counter_metric": "kfm", "process_timer_metric": "kvm", "process_gauge_metric": "kvm", "process_meter_metric": "kvm",
             "process_plugin_metric": "tkfm", "compose_timer_metric": "kn", "compose_gauge_metric": "kn", "compose_meter_metric": "kn",
             "compose_counter_metric": "kn", "flush_counter_metrics": "ii", "flush_timer_metrics": "ii", "flush_gauge_metrics": "i",
             "flush_meter_metrics": "i", "flush_plugin_metrics": "ii", "flush_metrics_summary": "ifi", "get_metric_names": "", "get_gauge_names": "",
             "get_message_prefix": "k", "fail": "m"}


@section("what the logging processor inherits")
def inherited(p):
    def one():
        logged = p.trace()
        o = fresh(p, logged)
        names = sorted(INHERITED)
        name = names[p.e.choose(len(names))]
        calls = p.trace()
        result = p.list("result")

        def called(e, f, a, k):
            e.list_append(calls, tuple(a[1:]))
            return result
        for c in (CP, MP, PROC + "BaseMessageProcessor"):
            p.e.contracts["%s.%s" % (c, name)] = called
        mk = {"k": lambda: p.str("key"), "v": lambda: p.str("value"), "m": lambda: p.str("message"), "t": lambda: p.str("type"), "n": lambda: p.float("number"),
              "i": lambda: p.int("number"), "f": lambda: p.list(p.str("field"), p.str("type"))}
        args = [mk[c]() for c in INHERITED[name]]
        r = p.no_raise(lambda: p.m(o, name, *args))
        p.same(r, result, "%s gives what the configurable processor's gives" % name)
        p.eq(calls, p.list(tuple(args)), "%s does what the configurable processor's does" % name)
        p.eq(logged, p.list(), "%s logs nothing more" % name)
    p.paths(one)
