"""Options and the configuration file: any command line, any file with any number of sections and items, any options."""
import z3
from pyded.core import Family, HInst, Sym, zi, zs
from pyded.proof import PyExc, section
from contracts.common import *

GLUE = "txstatsd.service:OptionsGlue"
OPTS = "txstatsd.service:StatsDOptions"
USAGE = "twisted.python.usage."
FUNCTIONS = ["OptionsGlue.__init__/opt_config/parseOptions/postOptions/overridden_option/configure/_coerce_option", "accumulateClassList",
             "StatsDOptions.__init__/opt_carbon_cache_host/opt_carbon_cache_port/opt_carbon_cache_name"]
TRUSTED = ["twisted.python.usage.Options: the constructor gives every option its default, longOpt has 'name=' for exactly the options that take a value, "
           "_dispatch has a CoerceParameter (its coerce is the option's type) or a function of name and value for every option, synonyms maps every short form to its option; "
           "parseOptions hands every option of the command line, in order, to its entry of _dispatch (a CoerceParameter stores the coerced value) and then calls postOptions once",
           "getopt.getopt gives the options of the command line in order, each with its dashes ('-x' or '--name', in full), or raises getopt.error",
           "RawConfigParser.read, sections and items give what the file says"]
S_ = z3.StringSort()
COERCED = z3.Function("coerced", S_, S_, S_)
TYPED = z3.Function("has_a_type", S_, z3.BoolSort())
SYN = z3.Function("synonym", S_, S_)


class World(object):
    def __init__(self, p):
        self.p = p
        e = p.e
        self.sets, self.calls, self.stored = p.trace(), p.trace(), {}
        self.base_parse, self.base_init = p.trace(), p.trace()
        e.ext_classes[USAGE + "Options"] = {
            "__init__": Builtin("__init__", self.init), "__setitem__": Builtin("__setitem__", self.setitem),
            "__getitem__": Builtin("__getitem__", self.getitem), "parseOptions": p.recorder(self.base_parse),
            "opts": None}
        e.ext_classes[USAGE + "CoerceParameter"] = {}

    def init(self, e, a, k):
        e.list_append(self.base_init, tuple(a))

    def setitem(self, e, a, k):
        self.set(a[1], a[2])

    def set(self, n, v):
        self.p.e.list_append(self.sets, (n, v))
        if isinstance(n, str):
            self.stored[n] = v

    def getitem(self, e, a, k):
        if isinstance(a[1], str) and a[1] in self.stored:
            return self.stored[a[1]]
        e.throw("KeyError", "no such option")


@section("an item of the file")
def item(p):
    """A name given on the command line, or that is no option, changes nothing; an option of a type gets the value of that type; an
    option with a method gets it through that method, once."""
    for what in ("stored", "called"):
        p.paths(lambda: one_item(p, what))


def one_item(p, what):
    w = World(p)
    name, value = p.str("name"), p.str("value")

    def entry(e, i, key):
        return p.stub("entry", {"isinstance": lambda e, a, k: Sym("bool", TYPED(zs(key))),
                                "coerce": Builtin("coerce", lambda e, a, k: Sym("str", COERCED(zs(key), zs(a[0])))),
                                "dispatch": Builtin("dispatch", lambda e, a, k: w.set(a[0], Sym("str", COERCED(zs(key), zs(a[1])))))},
                      lambda e, a, k: e.list_append(w.calls, tuple(a)))
    dispatch = p.e.sym_dict("dispatch", entry)
    given, longs = p.listof(p.base("given", "str")), p.listof(p.base("longs", "str"))
    o = p.instance(GLUE, {"overridden_options": given, "longOpt": longs, "_dispatch": dispatch})
    p.set(o, "opts", o)
    p.no_raise(lambda: p.m(o, "_coerce_option", name, value))
    stored, calls = [], []
    if not p.e.contains(given, name) and p.e.contains(longs, cat(p, name, "=")):
        if p.e.dict_find(dispatch, name) is None:
            stored = [(name, value)]
        elif p.e.branch(TYPED(zs(name))):
            stored = [(name, Sym("str", COERCED(zs(name), zs(value))))]
        else:
            calls = [(name, value)]
    if what == "stored":
        p.eq(w.sets, p.list(*stored), "exactly that value is stored")
    else:
        p.eq(w.calls, p.list(*calls), "exactly that method is called, once")


def parser(p, sections, n=None):
    """A configuration file: for every section, any items."""
    S = z3.StringSort()
    count = z3.Function("items_n", S, z3.IntSort())
    nm, val = z3.Function("item_name", S, z3.IntSort(), S), z3.Function("item_value", S, z3.IntSort(), S)
    from pyded.seqs import Base

    def mk(ps):
        p.assume(count(*ps) >= 0)
        return Base("items", count(*ps), lambda e, i: (Sym("str", nm(ps[0], zi(i))), Sym("str", val(ps[0], zi(i)))))
    fam = Family("items", mk)
    items = lambda s: p.listof(fam.get([zs(s)]))
    return p.stub("file", {"items": Builtin("items", lambda e, a, k: items(a[0])), "sections": Builtin("sections", lambda e, a, k: p.listof(sections))}), items


@section("the file")
def the_file(p):
    """Every item of the main section, then of every carbon-cache section, in the order of the sections' names; plugin sections are kept
    as they are; other sections are not looked at."""
    for what in ("values", "kept"):
        p.paths(lambda: one_file(p, what))


def one_file(p, what):
    w = World(p)
    applied = p.trace()
    p.e.contracts[GLUE + "._coerce_option"] = lambda e, f, a, k: e.list_append(applied, (a[1], a[2]))
    sections = p.base("sections", "str")
    f, items = parser(p, sections)
    main = p.str("config_section")
    o = p.instance(GLUE, {"config_section": main})
    p.no_raise(lambda: p.m(o, "configure", f))
    e = p.e
    want, kept = p.trace(), p.trace()
    e.list_extend(want, items(main))
    order = e.call(e.builtins["sorted"], [p.listof(sections)], {})

    def one(s):
        if e.branch(e.truth(p.m(s, "startswith", "plugin_"))):
            e.list_append(kept, (s, items(s)))
        if e.branch(e.truth(p.m(s, "startswith", "carbon-cache"))):
            e.list_extend(want, items(s))
    e.iterate(order, one) if hasattr(e, "iterate") else None
    if what == "values":
        p.eq(applied, want, "exactly those items are applied, in that order")
    else:
        p.eq(w.sets, kept, "exactly the plugin sections are kept")
@section("reading the file")
def reading(p):
    """Without a configuration file nothing is read; with one, that file is read first and then applied, once."""
    def one():
        w = World(p)
        events = p.trace()
        path = p.str("path") if p.e.choose(2) else None
        f = p.stub("file", {"read": p.recorder(events, "read")})
        p.external("ConfigParser.RawConfigParser", lambda e, a, k: f)
        p.e.contracts[GLUE + ".configure"] = lambda e, fn, a, k: e.list_append(events, ("apply", a[1]))
        o = p.instance(GLUE, {})
        w.stored["config"] = path
        p.no_raise(lambda: p.m(o, "postOptions"))
        p.eq(events, p.list() if path is None else p.list(("read", path), ("apply", f)), "the file is read, then applied")
        p.eq(w.sets, p.list(), "nothing else is changed")
    p.paths(one)


@section("the path of the file")
def the_path(p):
    def one():
        w = World(p)
        path = p.str("path")
        o = p.instance(GLUE, {})
        p.no_raise(lambda: p.m(o, ["opt_config", "opt_c"][p.e.choose(2)], path))
        p.eq(w.sets, p.list(("config", path)), "the file's path is stored")
    p.paths(one)


@section("the command line")
def command_line(p):
    """Every option given on the command line, in its short form too, is remembered under its own name; then twisted parses the same words."""
    def one():
        w = World(p)
        e = p.e
        typ = e.exc_class("getopt.error")
        argv = p.listof(p.base("argv", "str"))
        e.extern["sys.argv"] = p.list("twistd")
        e.list_extend(e.extern["sys.argv"], argv)
        explicit = e.choose(2)
        given = p.listof(p.base("words", "str")) if explicit else argv
        short, name = z3.Function("is_short", z3.IntSort(), z3.BoolSort()), z3.Function("flag", z3.IntSort(), S_)
        shortopt, longopt = p.str("shortOpt"), p.listof(p.base("longs", "str"))

        def opt(e, i):
            if e.branch(short(zi(i))):
                c = Sym("str", name(zi(i)))
                p.assume(z3.Length(c.t) == 1)
                p.assume(c.t != z3.StringVal("-"))
                return (cat(p, "-", c), e.fresh("str", "arg"))
            return (cat(p, "--", Sym("str", name(zi(i)))), e.fresh("str", "arg"))
        opts = p.base("opts", None, mk=opt)

        def getopt(e, a, k):
            p.eq(p.list(*a[:3]), p.list(given, shortopt, longopt), "the words given are parsed, with the options there are")
            if e.choose(2):
                r = e.alloc(HInst(typ, {"args": ("bad",), "message": "bad"}))
                raise PyExc(r, typ)
            return (p.listof(opts), p.listof(p.base("args", "str")))
        p.external("getopt.getopt", getopt)
        syn = e.sym_dict("synonyms", lambda e, i, k: Sym("str", SYN(zs(k))))
        o = p.instance(GLUE, {"overridden_options": p.list(), "shortOpt": shortopt, "longOpt": longopt, "synonyms": syn})
        try:
            p.m(o, "parseOptions", *([given] if explicit else []))
        except PyExc as x:
            p.decided(x.cls.name.endswith("UsageError"), "only a usage error", "syntactic", x.cls.name)
            p.eq(w.base_parse, p.list(), "nothing is applied after an error")
            return
        want = p.trace()

        def canonical(x):
            flag = x[0]
            if e.branch(e.truth(p.m(flag, "startswith", "--"))):
                e.list_append(want, e.getslice(flag, 2, None))
                return
            c = e.getslice(flag, 1, None)
            s = e.dict_find(syn, c)
            e.list_append(want, c if s is None else s[1])
        e.iterate(p.listof(opts), canonical)
        p.eq(p.a(o, "overridden_options"), want, "the options given are remembered")
        p.eq(w.base_parse, p.list((o, given)), "twisted parses the same words, once")
    p.paths(one)


@section("a destination")
def destination(p):
    """Each destination option adds to its list; the port as a number."""
    def one():
        w = World(p)
        PORT = z3.Function("port_number", S_, z3.IntSort())
        p.external(USAGE + "portCoerce", lambda e, a, k: Sym("int", PORT(zs(a[0]))))
        for n in ("host", "port", "name"):
            w.stored["carbon-cache-" + n] = p.listof(p.base(n + "s", "int" if n == "port" else "str"))
        o = p.instance(OPTS, {})
        which = ["host", "port", "name"][p.e.choose(3)]
        value = p.str("value")
        before = {n: p.list() for n in ("host", "port", "name")}
        for n in before:
            p.e.list_extend(before[n], w.stored["carbon-cache-" + n])
        p.no_raise(lambda: p.m(o, "opt_carbon_cache_" + which, value))
        p.e.list_append(before[which], Sym("int", PORT(value.t)) if which == "port" else value)
        for n in ("host", "port", "name"):
            p.eq(w.stored["carbon-cache-" + n], before[n], "the list of %ss" % n)
    p.paths(one)


@section("a new set of options")
def new_options(p):
    """Nothing is overridden, there is no destination, and the main section is [statsd]."""
    def one():
        w = World(p)
        o = p.no_raise(lambda: p.new(OPTS))
        p.eq(w.base_init, p.list((o,)), "twisted gives the options their defaults, once")
        p.eq(p.a(o, "config_section"), "statsd", "the main section")
        p.eq(p.a(o, "overridden_options"), p.list(), "no option is overridden")
        lists = [w.stored.get("carbon-cache-" + n) for n in ("host", "port", "name")]
        for x in lists:
            p.eq(x, p.list(), "no destination")
        p.decided(len(set(map(repr, lists))) == 3, "the three lists are different objects", "syntactic", repr(lists))
    p.paths(one)


DEFAULTS = {"carbon-cache-host": ("h", None, "str"), "carbon-cache-port": ("p", None, "int"), "carbon-cache-name": ("n", None, None),
            "listen-port": ("l", 8125, "int"), "flush-interval": ("i", 60000, "int"), "prefix": ("x", None, "str"), "instance-name": ("N", None, "str"),
            "report": ("r", None, "str"), "monitor-message": ("m", "txstatsd ping", "str"), "monitor-response": ("o", "txstatsd pong", "str"),
            "statsd-compliance": ("s", 1, "int"), "dump-mode": ("d", 0, "int"), "routing": ("g", "", "str"), "listen-tcp-port": ("t", None, "int"),
            "max-queue-size": ("Q", 20000, "int"), "max-datapoints-per-message": ("M", 1000, "int"), "http-port": ("P", None, "int")}


def concrete(p, ref):
    out = []
    p.e.iterate(ref, out.append)
    return out


@section("the options there are")
def the_options(p):
    """The documented options, with their short form, default and type (a table: read from the class)."""
    def one():
        World(p)
        table = [concrete(p, x) for x in concrete(p, p.a(p.get(OPTS), "optParameters"))]
        for n in sorted(DEFAULTS):
            short, default, typ = DEFAULTS[n]
            t = [x for x in table if x[0] == n]
            p.decided(len(t) == 1 and t[0][1] == short and t[0][2] == default and type(t[0][2]) is type(default), "%s has its short form and its default" % n, "syntactic", repr(t))
            p.decided(len(t) == 1 and (getattr(t[0][4], "name", None) if len(t[0]) > 4 else "str") in ((typ,) if typ == "int" else ("str", None)) or
                      n.startswith("carbon-cache"), "%s has its type" % n, "syntactic", repr(t))
            p.decided(len([x for x in table if x[1] == short]) == 1, "the short form of %s is its own" % n, "syntactic", repr(t))
    p.paths(one)
