"""normalize_key on every string, of any length: its term is a chain of substitutions, which is compared as a finite-state
transducer with the specification's; and process() records under the normalised name."""
import z3
from pyded import fst
from pyded.core import Sym, Unsupported
from pyded.proof import section
from contracts import C16
from contracts.common import *

FUNCTIONS = ["normalize_key", "BaseMessageProcessor.process", "MessageProcessor.process_message (every kind)",
             "MessageProcessor/ConfigurableMessageProcessor.process_*_metric and compose_*_metric (the name they record under)", "Router.process/process_message"]
TRUSTED = ["re.sub on patterns that are one character class or runs of one: leftmost, not overlapping (pyded/fst.py)",
           "str.strip, str.split"]
ASSUMPTIONS = ["\\\\s is ASCII whitespace (byte strings and unflagged patterns)"]

SPACE, SLASH = fst.ranges(" \t\n\r\f\v"), fst.ranges("/")
KEEP = fst.ranges("a-zA-Z0-9_.") + [(ord("-"), ord("-") + 1)]


def member(c, rs):
    return any(a <= c < b for a, b in rs)


def spec_step(state, c):
    """A run of whitespace gives '_', a run of slashes '-', other characters outside the alphabet give nothing."""
    if member(c, SPACE):
        return "space", () if state == "space" else (ord("_"),)
    if member(c, SLASH):
        return "slash", () if state == "slash" else (ord("-"),)
    return "", (fst.COPY,) if member(c, KEEP) else ()


SPEC = fst.Spec("", spec_step, [SPACE, SLASH, KEEP])
BACKEND = "transducer equivalence"


@section("normalize_key")
def normalise(p):
    def one():
        key = p.str("key")
        r = p.no_raise(lambda: p.call(PROC + "normalize_key", key))
        if not isinstance(r, Sym) or r.kind != "str":
            p.undischarged("is a transduction", "the result is %r" % (r,))
            return
        t = fst.of_term(r.t, key.t)

        def shown(w):
            return None if w is None else "on the name %r" % w
        w = fst.equal(t, SPEC)
        p.decided(w is None, "each run of whitespace gives one '_', each run of slashes one '-', the rest outside the alphabet nothing", BACKEND, shown(w), w)
        w = [x for c, x in sorted(fst.outputs(t).items()) if not member(c, KEEP)]
        p.decided(not w, "the result is within the alphabet", BACKEND, shown(w[0]) if w else None)
        w = fst.equal(fst.Restricted(t, KEEP), fst.Restricted(fst.Chain([]), KEEP))
        p.decided(w is None, "a name within the alphabet is kept", BACKEND, shown(w))
        w = fst.equal(fst.Chain(t.parts + t.parts), t)
        p.decided(w is None, "normalising twice is normalising once", BACKEND, shown(w))
    p.paths(one)


@section("BaseMessageProcessor.process")
def process(p):
    def one():
        handled, failed = p.trace(), p.trace()
        norm = z3.Function("normalised", z3.StringSort(), z3.StringSort())
        p.e.contracts[PROC + "normalize_key"] = lambda e, f, a, k: Sym("str", norm(zs(a[0])))
        kinds = [(PROC + "MessageProcessor", None), (CONF + "ConfigurableMessageProcessor", None), ("txstatsd.server.router:Router", "")]
        path, rules = kinds[p.e.choose(3)]
        p.e.contracts[path + ".process_message"] = lambda e, f, a, k: e.list_append(handled, tuple(a[1:]))
        if path.endswith("Configurable" + "MessageProcessor"):
            p.e.contracts[PROC + "MessageProcessor.process_message"] = p.e.contracts[path + ".process_message"]
        p.e.contracts[PROC + "BaseMessageProcessor.fail"] = lambda e, f, a, k: e.list_append(failed, a[1])
        if rules is None:
            o = p.new(path, clock(p))
        else:
            p.external("twisted.internet.defer.succeed", lambda e, a, k: p.stub("deferred"))
            o = p.new(path, p.stub("processor", {"flush": Builtin("flush", lambda e, a, k: None)}), rules)
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "process", line))
        if p.valid(p.e.eq(p.e.list_len(handled), 0)):
            p.eq(failed, p.list(line), "a line that is not handled is discarded, once")
            return
        p.eq(p.e.list_len(handled), 1, "a line is handled at most once")
        p.eq(failed, p.list(), "and not discarded as well")
        message, typ, key, fields = p.e.list_get(handled, 0)
        name = p.e.list_get(p.m(p.m(line, "strip"), "split", ":", 1), 0)
        p.eq(key, Sym("str", norm(zs(name))), "under the normalised name: what comes before the first colon")
    p.paths(one)


RECORDS = {"c": ("counter_metrics", "5"), "ms": ("timer_metrics", "5"), "g": ("gauge_metrics", "5"), "m": ("meter_metrics", "5"), "x": ("plugin_metrics", "5")}


@section("what a sample is recorded under")
def recorded(p):
    def one():
        path = [PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor", "txstatsd.server.loggingprocessor:LoggingMessageProcessor"][p.e.choose(3)]
        logger = [p.stub("logger", {"info": Builtin("info", lambda e, a, k: None)})] if "Logging" in path else []
        built = p.trace()
        metric = p.stub("metric", {"process": Builtin("process", lambda e, a, k: None)})
        plugin = p.stub("plugin", {"metric_type": "x", "name": "plug", "build_metric": Builtin("build_metric", lambda e, a, k: (e.list_append(built, k.get("name")), metric)[1])})
        o = p.no_raise(lambda: p.new(path, *(logger + [clock(p)]), plugins=p.list(plugin)))
        key = p.str("key")
        typ = sorted(RECORDS)[p.e.choose(5)]
        attr, v = RECORDS[typ]
        p.no_raise(lambda: p.m(o, "process_message", p.str("message"), typ, key, p.list(v, typ)))
        for t in sorted(RECORDS):
            d = p.a(o, RECORDS[t][0])
            if isinstance(p.e.obj(d), HDict):
                names = p.m(d, "keys")
            else:
                names = p.trace()
                p.e.iterate(d, lambda x: p.e.list_append(names, p.e.list_get(x, 1)))
            p.eq(names, p.list(key) if t == typ else p.list(), "a %s sample is recorded under its name, and nowhere else" % typ)
        p.eq(p.m(o, "get_metric_names"), p.list(key), "and that is the name listed")
        if typ == "x":
            p.eq(built, p.list(key), "and given to the plugin")
    p.paths(one)


# routing: every rule is asked about the name as normalised, and what passes is handed on under the name that the rules leave
section("Router.process_message")(C16.process)
