"""Parsers of the kernel's tables, for any number of lines, columns and devices; counter reports, for any sequence of readings."""
import z3
from pyded.core import Base, Builtin, Family, Ref, Sym, zi
from pyded.lib import HAS
from pyded.ops import PARSE, PARSE_FIN, PARSE_OK
from pyded.proof import PyExc, section
from contracts.common import *

M = "txstatsd.process:"
FUNCTIONS = ["parse_meminfo", "parse_loadavg", "parse_netdev", "report_counters", "report_file_stats", "load_file"]
TRUSTED = ["str.split/splitlines/strip, int(text) and float(text) on the texts of the tables as described in ASSUMPTIONS"]
ASSUMPTIONS = ["a line of the memory table is empty, or a label ending in ':', any number of spaces, a whole number and no unit, kB or mB (any number of lines, any labels)",
               "the load table starts with three finite numbers",
               "the network table has two header lines, the second with two '|' and, on both sides, any number of different column names, bytes and packets among them, in any places; a device line has one ':' followed by as many whole numbers as there are columns (any number of lines)",
               "counter readings: the state after the second and the third report is compared (same variables, the new reading in the place of the old), which makes the step from one report to the next inductive; objects other than the readings are compared by kind"]


def readings(p, n):
    """Any dictionaries of numbers."""
    return [p.e.sym_dict("reading%d" % k, lambda e, i, key, F=z3.Function("value%d" % k, z3.IntSort(), z3.RealSort()): Sym("float", F(zi(i))),
                         scalar="float") for k in range(n)]


def state(p, old, names):
    """The variables and attributes of the objects in old: the readings by name, other objects by kind."""
    out = {}
    for a in old:
        o = p.e.heap[a]
        for k, v in sorted(getattr(o, "attrs", {}).items()):
            if isinstance(v, Ref):
                v = names.get(v, type(p.e.obj(v)).__name__)
            elif isinstance(v, (Sym, tuple)) or v is None:
                v = type(v).__name__
            out[a, k] = repr(v)
    return out


@section("report_counters")
def counters(p):
    def one():
        rs = readings(p, 4)
        calls = p.list()
        a, k = p.obj_("argument"), p.obj_("keyword")
        todo = list(rs)

        def read(e, args, kw):
            p.prove(len(args) == 1 and args[0] is a and list(kw) == ["k"] and kw["k"] is k, "the function is called with the given arguments")
            return todo.pop(0)
        f = p.stub("function", {"__name__": "f", "__module__": "m", "__doc__": None, "__dict__": p.dict()}, call=read)
        report = p.no_raise(lambda: p.call(p.get(M + "report_counters"), f, a, k=k))
        got = p.no_raise(lambda: p.call(report))
        p.prove(len(todo) == 3, "one reading for the first report")
        p.eq(p.e.dict_len(got), 0, "the first report is empty")
        old = [a for a, o in p.e.heap.items() if hasattr(o, "attrs")]
        states = []
        for n in (1, 2, 3):
            got = p.no_raise(lambda: p.call(report), "later reports raise nothing")
            p.prove(len(todo) == 3 - n, "one reading for each report")
            states.append(state(p, old, {rs[n]: "present reading", rs[n - 1]: "last reading"}))
            if which == 0 and n == 3:
                p.decided(states[1] == states[2], "the state after a report is the one after the report before, with its own reading", "syntactic",
                          "%s %s" % (states[1], states[2]))
            if n == which:
                key = p.str("key")
                there = p.e.dict_get(got, key)
                new, old = p.e.dict_get(rs[n], key), p.e.dict_get(rs[n - 1], key)
                if new is None or old is None:
                    p.prove(there is None, "a key without a previous or a present value is not reported")
                else:
                    p.prove(there is not None, "a key with both values is reported")
                    p.eq(there, p.e.binop("Sub", new, old), "as the difference of the two")
                return
    which = 0
    for which in (0, 1, 2, 3):
        p.paths(one)



@section("report_file_stats and load_file")
def files(p):
    def one():
        name, texts = p.str("filename"), [p.str("content1"), p.str("content2")]
        todo = list(texts)
        closed = []

        def opened(e, a, kw):
            p.prove(len(a) in (1, 2) and a[0] is name and (len(a) == 1 or a[1] in ("r", "rb")), "the file of that name is opened for reading")
            t = todo.pop(0)
            f = p.stub("file", {"read": p.stub("read", call=lambda e, a, k: t), "close": p.stub("close", call=lambda e, a, k: closed.append(1))})
            f.attrs["__enter__"] = p.stub("enter", call=lambda e, a, k: f)
            f.attrs["__exit__"] = p.stub("exit", call=lambda e, a, k: closed.append(1))
            return f
        p.e.builtins["open"] = Builtin("open", opened)
        values = []

        def parse(e, a, kw):
            values.append((a[0], p.obj_("value")))
            return values[-1][1]
        report = p.no_raise(lambda: p.call(p.get(M + "report_file_stats"), name, p.stub("parser", call=parse)))
        p.prove(len(todo) == 2, "nothing is read beforehand")
        for n in (0, 1):
            got = p.no_raise(lambda: p.call(report))
            p.prove(len(values) == n + 1 and values[n][0] is texts[n], "each report reads the file anew and parses all of it")
            p.prove(got is values[n][1], "and gives what the parser makes of it")
    p.paths(one)


@section("parse_loadavg")
def loadavg(p):
    def one():
        data, a, b, c = p.str("data"), p.str("one"), p.str("five"), p.str("fifteen")
        p.e.strspec[data.t.sexpr()] = {None: [[a, b, c], p.base("rest", "str")]}
        for t in (a, b, c):
            p.assume(z3.And(PARSE_OK(t.t), PARSE_FIN(t.t)))
        fl = [Sym("float", PARSE(t.t)) for t in (a, b, c)]
        prefix = [lambda: p.str("prefix"), lambda: None][p.e.choose(2)]()
        got = p.no_raise(lambda: p.call(p.get(M + "parse_loadavg"), data, *([prefix] if prefix is not None else [])))
        pre = "sys.loadavg" if prefix is None else prefix
        p.eq(got, p.dict([(cat(p, pre, "." + n), v) for n, v in zip(("oneminute", "fiveminutes", "fifthteenminutes"), fl)]),
             "the first three numbers, under their names, and nothing else")
    p.paths(one)


KEYS = ["MemTotal", "MemFree", "Buffers", "Cached", "SwapCached", "SwapTotal", "SwapFree"]


@section("parse_meminfo")
def meminfo(p):
    def one():
        LINE, LABEL = [z3.Function(n, z3.IntSort(), z3.StringSort()) for n in ("line", "label")]
        AMOUNT, UNIT, GAP = [z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ("amount", "unit", "gap")]

        def line(e, i):
            i = zi(i)
            t = LINE(i)
            num = e.to_str(Sym("int", AMOUNT(i)))
            e.assume(z3.And(GAP(i) >= 0, UNIT(i) >= 0, UNIT(i) <= 2))
            label = e.binop("Add", Sym("str", LABEL(i)), ":")
            unit = lambda e: [[], ["kB"], ["mB"]][0 if e.branch(UNIT(i) == 0) else 1 if e.branch(UNIT(i) == 1) else 2]
            e.strspec[LABEL(i).sexpr()] = {"without": ": \t\n", "solid": True}
            e.strspec[t.sexpr()] = {" ": lambda e: [[label], Base("spaces", GAP(i), lambda e, j: ""), [num] + unit(e)],
                                    None: lambda e: [[label, num] + unit(e)], "without": "\n"}
            return Sym("str", t)
        lines = p.base("lines", None, mk=line, lo=0)
        data = p.str("data")
        p.e.strspec[data.t.sexpr()] = {"\n": [lines], "lines": [lines]}
        prefix = [lambda: p.str("prefix"), lambda: None][p.e.choose(2)]()
        got = p.no_raise(lambda: p.call(p.get(M + "parse_meminfo"), data, *([prefix] if prefix is not None else [])))
        pre = "sys.mem" if prefix is None else prefix
        want = p.dict()

        def each(i):
            i = zi(i)
            if p.e.branch(LINE(i) == ""):
                return
            for k in KEYS:
                if p.e.branch(LABEL(i) == k):
                    scale = 1 if p.e.branch(UNIT(i) == 0) else 1024 if p.e.branch(UNIT(i) == 1) else 1024 * 1024
                    p.e.dict_set(want, cat(p, pre, ".", Sym("str", LABEL(i))), p.e.binop("Mult", Sym("int", AMOUNT(i)), scale))
                    return
        p.e.iterate_segs([lines], lambda t: each(t.t.arg(0)))
        p.eq(got, want, "each recognised line, under its label, in bytes")
    p.paths(one)


@section("parse_netdev")
def netdev(p):
    def one():
        head, header, title = p.str("first"), p.str("header"), p.str("title")
        cols, where = {}, {}
        for d in ("recv", "send"):
            text = p.str(d)
            b = p.base(d + "_columns", "str", lo=2)
            where[d] = [z3.Int(d + "_bytes"), z3.Int(d + "_packets")]
            for i, nm in zip(where[d], ("bytes", "packets")):
                p.assume(z3.And(i >= 0, i < zi(b.n)))
                p.assume(p.e.elem(b, i).t == nm)
            b.pairs = lambda e, i, vi, j, vj: [z3.Or(zi(i) == zi(j), vi.t != vj.t)]
            p.e.strspec[text.t.sexpr()] = {None: [b]}
            cols[d] = (text, b)
        p.e.strspec[header.t.sexpr()] = {"|": [[title, cols["recv"][0], cols["send"][0]]]}
        nr, ns = cols["recv"][1].n, cols["send"][1].n

        LINE, NAME, NUMS, DEV = [z3.Function(n, z3.IntSort(), z3.StringSort()) for n in ("line", "name", "numbers", "device")]
        DEVICE = z3.Function("is_device", z3.IntSort(), z3.BoolSort())
        NUM = z3.Function("number", z3.IntSort(), z3.IntSort(), z3.IntSort())
        fam = Family("tokens", lambda ps: Base("tokens", nr + ns, lambda e, j: e.to_str(Sym("int", NUM(ps[0], zi(j)))), scalar="str"))

        def line(e, i):
            i = zi(i)
            t = LINE(i)
            e.strspec[t.sexpr()] = {":": lambda e: [[Sym("str", NAME(i)), Sym("str", NUMS(i))]]}
            e.strspec[NUMS(i).sexpr()] = {None: [fam.get([i])]}
            e.assume(HAS(t, z3.StringVal(":")) == DEVICE(i))
            return Sym("str", t)
        lines = p.base("lines", None, mk=line, lo=0)
        data = p.str("data")
        all_lines = [[head, header], lines]
        p.e.strspec[data.t.sexpr()] = {"\n": all_lines, "lines": all_lines}
        prefix = [lambda: p.str("prefix"), lambda: None][p.e.choose(2)]()
        got = p.no_raise(lambda: p.call(p.get(M + "parse_netdev"), data, *([prefix] if prefix is not None else [])))
        pre = "sys.net" if prefix is None else prefix
        want = p.dict()

        def each(i):
            if p.e.branch(DEVICE(i)):
                name = p.m(Sym("str", NAME(i)), "strip")
                for d, word, off in (("recv", "received", 0), ("send", "sent", nr)):
                    for k, what in enumerate(("bytes", "packets")):
                        p.e.dict_set(want, cat(p, pre, ".", name, "." + what + "." + word), Sym("int", NUM(i, off + where[d][k])))
        p.e.iterate_segs([lines], lambda t: each(t.t.arg(0)))
        p.eq(got, want, "for each device the numbers of the columns so named, and nothing else")
    p.paths(one)
