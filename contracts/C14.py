"""Client and server composed: a reporting call, through InternalClient, the server's parsing and its recording, for every name in
the alphabet, every integer, every state of the client and of the processor."""
import re
import string
import z3
from pyded.core import NonFin, Stub, Sym, zi, zr, zs
from pyded.ops import PARSE, PARSE_FIN, PARSE_OK, STR_REAL
from pyded.proof import section
from contracts import C01, C02, C13, C20
from contracts.common import *
from contracts.flush import number

M = "txstatsd.metrics."
MP, CP, LP = C01.MP, C01.CP, C01.LP
FUNCTIONS = ["Metrics.gauge/meter/increment/decrement/report/sli/sli_error/fully_qualify_name", "ExtendedMetrics.increment/decrement",
             "Metric.send/write", "GaugeMetric.mark", "MeterMetric.mark", "CounterMetric.increment/decrement", "GenericMetric.mark",
             "InternalClient.write", "BaseMessageProcessor.process", "MessageProcessor.process_message/process_*_metric/compose_*_metric",
             "ConfigurableMessageProcessor.process_counter_metric/compose_*_metric", "SLIMetricReporter.process/update", "parse_value"]
TRUSTED = ["str(n) of an integer is its decimal numeral and float of that numeral is n", "str.strip, str.split",
           "str(x) of a float is its shortest of at most 12 significant digits in one of the shapes that the rate pattern is decided on"]
ASSUMPTIONS = ["a name is used for metrics of one kind; the sample rate is the one given when the name was first used",
               "normalize_key keeps names in the alphabet (C02)",
               "an integer's value is compared as a real number (beyond 2**53 float rounds it)",
               "a sample rate is one that prints as a positive number and whose inverse is finite"]
BOUNDED = []
ALPHABET = {"alphabet": set(string.ascii_letters + string.digits + "_-."), "without": ":|@ \t\r\n\x0b\x0c", "solid": True, "ascii": True}


def named(p, s):
    p.e.strspec[s.t.sexpr()] = ALPHABET
    return s


def kept(p):
    """normalize_key on a name in the alphabet (C02)."""
    def norm(e, f, a, k):
        from pyded.lib import parts_of
        for x in parts_of(a[0]):
            if isinstance(x, str):
                assert not set(x) - ALPHABET["alphabet"], "name with %r" % x
            else:
                assert e.strspec.get(x.sexpr()) is ALPHABET, "name %s" % x
        return a[0]
    p.e.contracts[PROC + "normalize_key"] = norm


def handed(cls, method, path, kind, data, extra=(), has_rate=True, call=None):
    def body(p):
        def one():
            kept(p)
            got, failed = p.trace(), p.trace()
            proc = [MP, CP, LP][p.e.choose(3)]
            for c in (MP, CP, LP):
                p.e.contracts[c + ".process_message"] = lambda e, f, a, k: e.list_append(got, tuple(a[2:]))
            p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
            o = p.new(proc, *([p.stub("logger", {"info": Builtin("info", lambda e, a, k: None)})] if proc == LP else []))
            w = C13.World(p)
            w.conn = p.no_raise(lambda: p.new("txstatsd.client:InternalClient", o))
            name = named(p, p.str("name"))
            ns = [lambda: named(p, p.str("namespace")), lambda: "", lambda: None][p.e.choose(3)]()
            client = p.new(cls, w.conn, ns)
            if path is None:
                mk = lambda e, i, k: p.e.alloc(HInst(p.get(M + "metrics:GenericMetric"), {"connection": w.conn, "name": named(p, k), "sample_rate": 1, "key": "sli"}))
            else:
                table = C13.metric_table(p, path, extra)
                mk = lambda e, i, k: table(w, named(p, k), i)
            d = p.e.sym_dict("metrics", mk, mutable=True)
            p.set(client, "_metrics", d)
            q = C13.full(p, ns, name)
            old = p.e.dict_get(d, q)
            v = p.int("value")
            state = {n: p.a(old, n) for n, _ in extra} if old is not None else None
            rate = (1 if old is None else p.a(old, "sample_rate")) if has_rate else None
            if has_rate and p.e.choose(2):
                given = p.float("rate")
                if old is None:
                    rate = given
                p.no_raise(lambda: p.m(client, method, name, v, sample_rate=given))
                fields = [C13.text(p, data(p, v, state)), kind]
            elif call is None:
                p.no_raise(lambda: p.m(client, method, name, v))
                fields = [C13.text(p, data(p, v, state)), kind]
            else:
                fields = p.no_raise(lambda: call(p, client, name, v))
            send = True
            if rate is not None and p.e.branch(p.e.lt(rate, 1)):
                send = not p.e.branch(p.e.lt(rate, w.draws[0]))
                fields.append(cat(p, "@", C13.text(p, rate)))
            p.eq(failed, p.list(), "no line is discarded")
            p.eq(got, p.list((kind, q, p.list(*fields))) if send else p.list(),
                 "one sample of that kind, name and value is handed over, or none when sampled away")
        p.paths(one)
    section("%s.%s to process_message" % (cls.split(":")[1], method if call is None else call.__name__))(body)


def sli(p, c, name, v):
    p.m(c, "sli", name, v)
    return [C13.text(p, v), "sli"]


def sli_with_size(p, c, name, v):
    n = p.int("size")
    p.m(c, "sli", name, v, n)
    return [C13.text(p, v), "sli", C13.text(p, n)]


def sli_error(p, c, name, v):
    p.m(c, "sli_error", name)
    return ["error", "sli"]


same = lambda p, v, s: v
for cls in (C13.METRICS, C13.EXT):
    handed(cls, "gauge", M + "gaugemetric:GaugeMetric", "g", same)
    handed(cls, "meter", M + "metermetric:MeterMetric", "m", same)
    for f in (sli, sli_with_size, sli_error):
        handed(cls, "sli", None, "sli", same, has_rate=False, call=f)
handed(C13.METRICS, "increment", C13.BASE, "c", same)
handed(C13.METRICS, "decrement", C13.BASE, "c", lambda p, v, s: C13.neg(p, v))
handed(C13.EXT, "increment", M + "countermetric:CounterMetric", "c", lambda p, v, s: C13.total(p, "increment", v, s), extra=C13.COUNT)
handed(C13.EXT, "decrement", M + "countermetric:CounterMetric", "c", lambda p, v, s: C13.total(p, "decrement", v, s), extra=C13.COUNT)


# What process_message records --------------------------------------------------------------------------------------------
def shapes():
    """str(x) of floats 0 < x < 1, the digits (but for the zero before the point) written as 5."""
    for n in range(1, 17):
        yield "0." + "5" * n
    for n in range(0, 12):
        for k in (2, 3):
            yield "5" + ("." + "5" * n if n else "") + "e-" + "5" * k


def digits_alike(pat):
    """The pattern tells no digit from another, except perhaps 0 from none (every shape is tried with 0s too)."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import sre_parse, sre_constants as c
    ok = [True]

    def walk(x):
        if isinstance(x, tuple) and x and x[0] is c.LITERAL or isinstance(x, tuple) and x and x[0] is c.NOT_LITERAL:
            ok[0] &= not chr(x[1]).isdigit()
        elif isinstance(x, tuple) and x and x[0] is c.RANGE:
            inside = [ch for ch in range(48, 58) if x[1][0] <= ch <= x[1][1]]
            ok[0] &= len(inside) in (0, 10)
        elif isinstance(x, (tuple, list)) or type(x).__name__ == "SubPattern":
            for y in x:
                walk(y)
    walk(sre_parse.parse(pat))
    return ok[0]


def decide_rate(p, pat):
    bad = [s for s in shapes() for t in (s, s.replace("5", "0")) for m in [re.match(pat, "@" + t)] if m is None or m.re.groups < 1 or m.group(1) != t]
    p.decided(digits_alike(pat) and not bad, "the rate pattern reads the whole of every rate as printed", "exhaustive over the shapes of a printed rate", str(bad[:3]))


def rate_rule(p, r):
    text = STR_REAL(r.t)

    def rule(e, pat, s, how):
        if isinstance(pat, str) and how == "match" and isinstance(s, Sym) and p.e.eq(s, cat(p, "@", Sym("str", text))) is True:
            decide_rate(p, pat)
            return Stub("match", {"group": Builtin("group", lambda e, a, k: [s, Sym("str", text)][a[0] if a else 0]),
                                  "groups": Builtin("groups", lambda e, a, k: (Sym("str", text),))})
    p.e.rx_rules.append(rule)
    p.assume(z3.And(PARSE_OK(text), PARSE_FIN(text), PARSE(text) > 0))
    return Sym("float", PARSE(text))


def recorded(mode, kind):
    @section("%s: a sample of type %s" % (["MessageProcessor", "ConfigurableMessageProcessor", "LoggingMessageProcessor"][mode], kind))
    def body(p):
        def one():
            s = C01.State(p, mode, False)
            key, other, message = (p.str(n) for n in ("key", "other", "message"))
            p.assume(key.t != other.t)
            n = p.int("n")
            fields = [C13.text(p, n), kind]
            rate = 1
            if kind == "x":
                fields += [[], [C13.text(p, p.int("size"))]][p.e.choose(2)]
            elif p.e.choose(2):
                r = p.float("rate")
                p.assume(z3.And(r.t > 0, r.t < 1))
                fields.append(cat(p, "@", C13.text(p, r)))
                written = rate_rule(p, r)
                if kind == "c" and not mode:
                    rate = written
            look = C01.KINDS[p.e.choose(5)]
            who = [key, other][p.e.choose(2)]
            was = s.snap(look, who)
            before = None
            if look == kind and kind == "m" and was is not None:
                before = p.a(was[0], "value")
            p.no_raise(lambda: p.m(s.o, "process_message", message, kind, key, p.list(*fields)))
            p.eq(s.failed, p.list(), "it is not discarded")
            p.eq(s.updated, p.list(), "it reaches no timer")
            if kind != "x":
                p.eq(s.processed, p.list(), "it reaches no plugin's metric")
            if look == "g" and not mode:
                want = p.list()
                p.e.list_extend(want, was)
                if kind == "g":
                    p.e.list_append(want, p.list(n, key))
                p.eq(s.snap("g", key), want, "the gauges received are those before and this one, with its value")
                return
            if look != kind or who is other:
                s.same(s.snap(look, who), was, "nothing else is recorded (%s)" % look)
                return
            now = p.e.dict_get(p.a(s.o, C01.ATTR[kind]), key)
            p.prove(now is not None, "it is recorded under its name")
            if now is None:
                return
            if isinstance(was, tuple):
                p.same(now, was[0], "in the metric of that name")
            if kind == "g":
                p.eq(p.a(now, "value"), n, "with its value")
            elif kind == "m":
                p.eq(p.a(now, "value"), n if was is None else add(p, before, n), "its value is added")
            elif kind == "c" and mode:
                p.eq(p.a(now, "count"), n, "with its value")
            elif kind == "c":
                inc = p.e.binop("Div", p.e.binop("Mult", n, Sym("float", z3.RealVal(1))), rate)
                p.eq(now, add(p, inc, 0 if was is None else was), "its value divided by the rate as written is added")
            else:
                k, f = p.e.list_get(s.processed, 0)
                p.eq(p.e.list_len(s.processed), 1, "once")
                p.eq(k, key, "by the plugin's metric of that name")
                p.eq(f, p.list(*fields), "from its fields")
        p.paths(one)


for _mode in range(3):
    for _k in ("g", "m", "c", "x"):
        recorded(_mode, _k)
section("SLIMetricReporter.process")(C20.process)
section("SLIMetricReporter.update")(C20.update)
section("normalize_key")(C02.normalise)
