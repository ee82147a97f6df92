"""Service-level metrics: any number of conditions (uninterpreted predicates), an arbitrary state of the counts, any sample."""
import string
import warnings
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import sre_constants as sc
    import sre_parse
import z3
from pyded.core import Base, NonFin, Poison, Sym, zi, zr
from pyded.proof import PyExc, section
from pyded.seqs import Invariant, Rest
from contracts.common import *

M = "txstatsd.metrics.slimetric:"
FACT = "twisted.plugins.sli_plugin:SLIMetricFactory"
FUNCTIONS = ["BelowCondition", "AboveCondition", "BetweenCondition", "SLIMetricReporter.__init__/clear/process/update/flush",
             "SLIMetricFactory.__init__/configure/build_metric/build_above/build_below/build_between"]
TRUSTED = ["fnmatch.fnmatch(path, pattern) decides whether a path matches", "float(text) is the number written, or raises ValueError",
           "a regular expression matches what greedy matching finds first (how the rule pattern reads a rule is derived from its parsed form, for ASCII texts)"]
ASSUMPTIONS = ["representation invariant: there is one count for each condition (established by clear, kept by update and flush, both proved)",
               "in build_metric, each pattern has one or two conditions (any number of patterns)",
               "in configure, each line of the rules is 'pattern => label IF condition number [number]' with a condition of the three known: what becomes of other texts "
               "is not part of the property"]


def conditions_spec(p, path, args, spec):
    def body():
        def one():
            o = p.no_raise(lambda: p.new(path, *args))
            v, size = p.float("value"), p.float("size")
            p.eq(p.no_raise(lambda: p.m(o, "__call__", v, size)), Sym("bool", spec(v.t, size.t)), "with a size")
            p.eq(p.no_raise(lambda: p.call(o, v)), Sym("bool", spec(v.t, z3.RealVal(1))), "the size is 1 when not given")
        p.paths(one)
    return body


def cond_section(name, spec, short):
    @section(name)
    def body(p):
        a, b = p.float("a"), p.float("b")
        conditions_spec(p, M + name, (a, b), lambda v, s: spec(a.t, b.t, v, s))()
        if short:
            conditions_spec(p, M + name, (a,), lambda v, s: spec(a.t, 0, v, s))()


cond_section("BelowCondition", lambda a, b, v, s: v < a + b * s, True)
cond_section("AboveCondition", lambda a, b, v, s: v > a + b * s, True)
cond_section("BetweenCondition", lambda a, b, v, s: z3.And(a < v, v < b), False)

HOLDS = z3.Function("condition_holds", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
COUNT = z3.Function("count_of", z3.IntSort(), z3.IntSort())


def as_real(v):
    """An infinity or NaN stands for a number of its own in the uninterpreted predicate."""
    return z3.Real("<%r>" % v) if isinstance(v, NonFin) else zr(v)


def holds(i, v, s):
    return HOLDS(zi(i), as_real(v), as_real(s))


def conditions(p):
    def mk(e, i, k):
        return p.stub("condition", call=lambda e, a, kw: Sym("bool", holds(i, a[0], a[1] if len(a) > 1 else kw.get("size", 1))))
    return p.e.sym_dict("conditions", mk)


def reporter(p):
    """A metric in any state."""
    conds = conditions(p)
    o = p.instance(M + "SLIMetricReporter", {"name": p.str("name"), "conditions": conds})
    n, err = p.int("count"), p.int("errors")
    p.set(o, "count", n)
    p.set(o, "error", err)
    counts = p.e.parallel_dict("counts", conds, lambda e, i, k: Sym("int", COUNT(zi(i))), scalar="int")
    p.set(o, "counts", counts)
    return o, conds, n, err


def counts_after(p, o, conds, value, size):
    """What the counts have to be after a sample (value None: an error)."""
    r = p.e.obj(conds).rest
    want = p.e.parallel_dict("want", conds, lambda e, i, k: Sym("int", COUNT(zi(i)) if value is None else
                             COUNT(zi(i)) + z3.If(holds(i, value, size), 1, 0)), scalar="int")
    p.eq(p.a(o, "counts"), want, "each condition that the sample satisfies counts one more, the others stay" if value is not None
         else "an error satisfies no condition")


@section("SLIMetricReporter.__init__ and clear")
def init(p):
    def one():
        conds = conditions(p)
        name = p.str("name")
        if p.e.choose(2):
            o = p.no_raise(lambda: p.new(M + "SLIMetricReporter", name, conds))
        else:
            o, conds, _, _ = reporter(p)
            name = p.a(o, "name")
            p.no_raise(lambda: p.m(o, "clear"))
        p.eq(p.a(o, "count"), 0, "no sample yet")
        p.eq(p.a(o, "error"), 0, "no error yet")
        want = p.dict()
        p.e.iterate(conds, lambda k: p.e.dict_set(want, k, 0))
        p.eq(p.a(o, "counts"), want, "one count for each condition, all zero")
        p.eq(p.a(o, "name"), name, "its name")
        p.same(p.a(o, "conditions"), conds, "its conditions")
    p.paths(one)


@section("SLIMetricReporter.update")
def update(p):
    def one():
        o, conds, n, err = reporter(p)
        if p.e.choose(2):
            v, size = p.float("value"), [lambda: p.float("size"), lambda: None][p.e.choose(2)]()
            p.no_raise(lambda: p.m(o, "update", v) if size is None else p.m(o, "update", v, size))
            counts_after(p, o, conds, v, 1 if size is None else size)
            p.eq(p.a(o, "error"), err, "no error more")
        else:
            p.no_raise(lambda: p.m(o, "update", "error"))
            counts_after(p, o, conds, None, None)
            p.eq(p.a(o, "error"), add(p, err, 1), "one error more")
        p.eq(p.a(o, "count"), add(p, n, 1), "one sample more")
        p.same(p.a(o, "conditions"), conds, "the conditions stay")
    p.paths(one)


@section("SLIMetricReporter.process")
def process(p):
    def one():
        o, conds, n, err = reporter(p)
        text, kind, extra = p.str("value"), p.str("kind"), p.str("size")
        more = p.e.choose(3)
        fields = [p.list(text, kind), p.list(text, kind, extra), p.list("error", kind)][more]
        size = 1
        ok = True
        try:
            p.m(o, "process", fields)
        except PyExc as x:
            p.prove(x.cls.name == "ValueError", "a sample that is not a number is refused with ValueError")
            ok = False
        if not ok:
            p.eq(p.a(o, "count"), n, "a refused sample is not counted")
            p.eq(p.a(o, "error"), err, "nor as error")
            counts_after(p, o, conds, None, None)
            return
        p.eq(p.a(o, "count"), add(p, n, 1), "one sample more")
        if more == 2 or p.e.branch(p.e.eq(text, "error")):
            p.eq(p.a(o, "error"), add(p, err, 1), "one error more")
            counts_after(p, o, conds, None, None)
            return
        if more == 1:
            size = p.e.call(p.e.builtins["float"], [extra], {})
        v = p.e.call(p.e.builtins["float"], [text], {})
        p.eq(p.a(o, "error"), err, "no error more")
        counts_after(p, o, conds, v, size)
    p.paths(one)


@section("SLIMetricReporter.flush")
def flush(p):
    def one():
        o, conds, n, err = reporter(p)
        name, ts = p.a(o, "name"), p.float("timestamp")
        counts = p.a(o, "counts")
        want = p.trace()
        p.e.iterate_segs(p.e.dict_segs(counts, "items"), lambda kv: p.e.list_append(want, (cat(p, name, ".count_", kv[0]), kv[1], ts)))
        p.e.list_append(want, (cat(p, name, ".count"), n, ts))
        p.e.list_append(want, (cat(p, name, ".error"), err, ts))
        got = p.trace()
        p.e.iterate(p.no_raise(lambda: p.m(o, "flush", p.float("interval"), ts)), lambda v: p.e.list_append(got, v))
        p.eq(got, want, "reports one count per condition, the number of samples and the number of errors")
        p.eq(p.a(o, "count"), 0, "then starts at zero samples")
        p.eq(p.a(o, "error"), 0, "and zero errors")
        zero = p.dict()
        p.e.iterate(conds, lambda k: p.e.dict_set(zero, k, 0))
        p.eq(p.a(o, "counts"), zero, "and zero for every condition")
    p.paths(one)


@section("SLIMetricFactory.build_metric")
def build(p):
    def one():
        f = p.no_raise(lambda: p.new(FACT))
        two = p.e.choose(2)
        L = [z3.Function("label%d" % k, z3.IntSort(), z3.StringSort()) for k in range(2)]

        def mk(e, i, k):
            return e.alloc(HDict([[Sym("str", l(zi(i))), Sym("int", zi(i) * 2 + n), None, None] for n, l in list(enumerate(L))[:1 + two]]))
        conf = p.e.sym_dict("config", mk)
        p.set(f, "config", conf)
        made = []
        p.e.contracts[M + "SLIMetricReporter"] = lambda e, cls, a, k: made.append(a) or p.stub("reporter")
        prefix, name = [lambda: p.str("prefix"), lambda: ""][p.e.choose(2)](), p.str("name")
        p.no_raise(lambda: p.m(f, "build_metric", prefix, name))
        p.prove(len(made) == 1, "one metric is built")
        path = name
        if p.e.branch(p.e.truth(prefix)):
            path = cat(p, prefix, name) if p.e.branch(z3.SuffixOf(z3.StringVal("."), zs(prefix))) else cat(p, prefix, ".", name)
        p.eq(made[0][0], path, "its path is the prefix, a dot and the name")
        want = p.dict()

        def one_pattern(kv):
            if p.e.branch(p.e.truth(p.e.call(p.e.extern["fnmatch.fnmatch"], [path, kv[0]], {}))):
                p.e.dict_update(want, kv[1])
        p.e.iterate_segs(p.e.dict_segs(conf, "items"), one_pattern)
        p.eq(made[0][1], want, "the conditions of exactly the patterns that match the path apply to it")
    p.paths(one)


def number(p, got, want, what):
    """Equal as numbers (an infinity or NaN only to itself)."""
    if isinstance(got, NonFin) or isinstance(want, NonFin):
        p.prove(repr(got) == repr(want), what)
    else:
        p.eq(got, want, what)


def builders(name, cls, attrs, n):
    @section("SLIMetricFactory.%s" % name)
    def body(p):
        def one():
            f = p.new(FACT)
            a, b = p.str("a"), p.str("b")
            args = (a, b) if n == 2 or p.e.choose(2) else (a,)
            try:
                c = p.m(f, name, *args)
            except PyExc as x:
                p.prove(x.cls.name == "ValueError", "what is not a number is refused with ValueError")
                return
            fl = lambda x: p.e.call(p.e.builtins["float"], [x], {})
            number(p, p.a(c, attrs[0]), fl(a), "with the first number")
            number(p, p.a(c, attrs[1]), fl(args[1]) if len(args) > 1 else 0, "and the second (0 when absent)")
            p.prove(p.e.obj(c).cls is p.get(M + cls), "the condition named is built")
        p.paths(one)


builders("build_above", "AboveCondition", ("value", "slope"), 1)
builders("build_below", "BelowCondition", ("value", "slope"), 1)
builders("build_between", "BetweenCondition", ("low", "hi"), 2)


# the text of the rules
WORD = frozenset(ord(c) for c in string.ascii_letters + string.digits + "_")
HEAD = WORD | frozenset(map(ord, ".*?-"))


def charset(items):
    """The ASCII characters that one atom of a pattern stands for, or None."""
    out, negate = set(), False
    every = set(range(128))
    for op, av in items:
        if op is sc.NEGATE:
            negate = True
        elif op is sc.LITERAL:
            out.add(av)
        elif op is sc.NOT_LITERAL:
            out |= every - {av}
        elif op is sc.RANGE:
            out |= set(range(av[0], av[1] + 1))
        elif op is sc.ANY:
            out |= every - {10}
        elif op is sc.IN:
            out |= charset(av)
        elif op is sc.CATEGORY:
            some = {sc.CATEGORY_WORD: WORD, sc.CATEGORY_DIGIT: set(range(48, 58)), sc.CATEGORY_SPACE: set(map(ord, " \t\n\r\x0b\x0c"))}
            no = {sc.CATEGORY_NOT_WORD: WORD, sc.CATEGORY_NOT_DIGIT: some[sc.CATEGORY_DIGIT], sc.CATEGORY_NOT_SPACE: some[sc.CATEGORY_SPACE]}
            if av not in some and av not in no:
                raise Unsupported("the rule pattern")
            out |= some[av] if av in some else every - no[av]
        else:
            raise Unsupported("the rule pattern")
    return every - out if negate else out


def read(pattern, pieces, whole):
    """What each group of the pattern matches in a text of these pieces: characters, or (value, alphabet) of at least one character (a value may also be
    empty when its alphabet is None: any text).  The match is the first that greedy matching tries, which is the one re finds."""
    tree = sre_parse.parse(pattern)
    todo, groups, at = list(pieces), {}, [0]

    def step(op, av):
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags in the rule pattern")
            was = at[0]
            for x in av[3]:
                step(*x)
            groups[av[0]] = (was, at[0])
        elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if at[0]:
                raise Unsupported("the rule pattern")
        elif op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            if at[0] != len(todo):
                raise Unsupported("the rule pattern leaves text")
        elif op is sc.MAX_REPEAT:
            lo, hi, body = av
            if hi is not sc.MAXREPEAT and hi > 1 or lo > 1:
                raise Unsupported("a limited repetition in the rule pattern")
            cs, n = charset(list(body)), 0
            while at[0] < len(todo) and (hi is sc.MAXREPEAT or n < hi):
                x = todo[at[0]]
                inside = {ord(x)} if isinstance(x, str) else x[1] if x[1] is not None else frozenset(range(128)) - {10}
                if inside & cs and hi is not sc.MAXREPEAT and not isinstance(x, str):
                    raise Unsupported("the rule pattern stops within a word")
                if inside <= cs:
                    n += not (isinstance(x, tuple) and x[1] is None)
                    at[0] += 1
                elif inside & cs:
                    raise Unsupported("the rule pattern stops within a word")
                else:
                    break
            if n < lo:
                raise Unsupported("the rule pattern does not match")
        else:
            cs = charset([(op, av)])
            x = todo[at[0]] if at[0] < len(todo) else None
            if not isinstance(x, str) or ord(x) not in cs:
                raise Unsupported("the rule pattern does not match")
            at[0] += 1
    for x in tree:
        step(*x)
    if whole and at[0] != len(todo):
        raise Unsupported("the rule pattern leaves text")
    groups[0] = (0, at[0])
    return groups, dict(tree.state.groupdict), tree.state.groups - 1


I_, S_ = z3.IntSort(), z3.StringSort()
LINE, HEADS, LABEL, CNAME = (z3.Function("rule_" + n, I_, S_) for n in ("line", "head", "label", "condition"))
PARAMS = [z3.Function("rule_params%d" % n, I_, S_) for n in (1, 2)]
FIRST, SECOND = z3.Function("rule_first", I_, S_), z3.Function("rule_second", I_, S_)
TWO = z3.Function("rule_has_two", I_, z3.BoolSort())
MADE = z3.Function("condition_made", I_, S_, S_, I_)
KINDS = ["above", "below", "between"]


def line_pieces(p, i):
    """Line i, as it is written, and the condition it names."""
    kind = [k for k in KINDS if p.e.branch(CNAME(i) == z3.StringVal(k))]
    two = p.e.branch(TWO(i))
    s = lambda t: Sym("str", t)
    return ([(s(HEADS(i)), HEAD)] + list(" => ") + [(s(LABEL(i)), WORD)] + list(" IF ") + list(kind[0]) + [" ", (s(PARAMS[two](i)), None)]), kind[0], two


def rule_lines(p):
    p.e.strspec_decl["rule_params1"] = lambda t: {" ": [[Sym("str", FIRST(t.arg(0)))]]}
    p.e.strspec_decl["rule_params2"] = lambda t: {" ": [[Sym("str", FIRST(t.arg(0))), Sym("str", SECOND(t.arg(0)))]]}
    n = p.int("lines").t
    p.assume(n >= 1)
    lines = p.base("lines", None, n=n, mk=lambda e, i: Sym("str", LINE(zi(i))),
                   facts=[lambda e, i, v: [z3.Or([CNAME(zi(i)) == z3.StringVal(k) for k in KINDS]), z3.Length(LINE(zi(i))) > 0]])
    lines.scalar = "str"

    def rule(e, pat, s, how):
        if not (isinstance(pat, str) and isinstance(s, Sym) and z3.is_app(s.t) and s.t.decl().eq(LINE)):
            return None
        pieces, kind, two = line_pieces(p, s.t.arg(0))
        groups, names, count = read(pat, pieces, how == "fullmatch")
        part = lambda k: cat(p, *[x if isinstance(x, str) else x[0] for x in pieces[slice(*groups[names.get(k, k)])]]) if groups[names.get(k, k)][0] < groups[names.get(k, k)][1] else ""

        def group(e, a, kw):
            return tuple(part(x) for x in a) if len(a) > 1 else part(a[0] if a else 0)
        return Stub("match", {"group": Builtin("group", group), "groups": Builtin("groups", lambda e, a, k: tuple(part(j) for j in range(1, count + 1)))})
    p.e.rx_rules.append(rule)
    for k in KINDS:
        def make(e, f, a, kw, k=k):
            if len(a) not in (2, 3) or kw:
                raise Unsupported("how a condition is built")
            return Sym("int", MADE(z3.IntVal(10 * len(a) + KINDS.index(k)), zs(a[1]), zs(a[2]) if len(a) > 2 else z3.StringVal("")))
        p.e.contracts[FACT + ".build_" + k] = make
    return lines


def add_rule(p, config, i):
    """What rule i adds to the configuration."""
    _, kind, two = line_pieces(p, i)
    head, label = Sym("str", HEADS(i)), Sym("str", LABEL(i))
    made = Sym("int", MADE(z3.IntVal(10 * (2 + two) + KINDS.index(kind)), FIRST(i), SECOND(i) if two else z3.StringVal("")))
    e = p.e.dict_find(config, head)
    if e is None:
        p.e.dict_set(config, head, p.dict())
        e = p.e.dict_find(config, head)
    p.e.dict_set(e[1], label, made)


CN, CK = z3.Function("configured", I_, I_), z3.Function("configured_pattern", I_, I_, S_)
CPOS, CHAS = z3.Function("configured_at", I_, S_, I_), z3.Function("is_configured", I_, S_, z3.BoolSort())
LN, LK = z3.Function("conditions_of", I_, I_, I_), z3.Function("label_of", I_, I_, I_, S_)
LPOS, LHAS = z3.Function("label_at", I_, I_, S_, I_), z3.Function("has_label", I_, I_, S_, z3.BoolSort())
LV = z3.Function("condition_at", I_, I_, I_, I_)


def config(p, k):
    """The configuration after k rules: any patterns, each with any labels and conditions."""
    def inner(i):
        p.assume(LN(k, i) >= 0)
        keys = Base("labels", LN(k, i), lambda e, j: Sym("str", LK(k, i, zi(j))), [lambda e, j, v: [LHAS(k, i, LK(k, i, zi(j))), LPOS(k, i, LK(k, i, zi(j))) == zi(j)]], scalar="str")
        vals = Base("conditions", LN(k, i), lambda e, j: Sym("int", LV(k, i, zi(j))), scalar="int")
        return p.e.alloc(HDict([], Rest(keys, vals, lambda s: LPOS(k, i, s), lambda s: LHAS(k, i, s))))
    p.assume(CN(k) >= 0)
    keys = Base("patterns", CN(k), lambda e, j: Sym("str", CK(k, zi(j))), [lambda e, j, v: [CHAS(k, CK(k, zi(j))), CPOS(k, CK(k, zi(j))) == zi(j)]], scalar="str")
    vals = Base("by pattern", CN(k), lambda e, j: inner(zi(j)), mutable=True)
    return p.e.alloc(HDict([], Rest(keys, vals, lambda s: CPOS(k, s), lambda s: CHAS(k, s))))


def same_config(p, a, b, what):
    """They agree on an arbitrary label of an arbitrary pattern."""
    q, l = p.str("pattern"), p.str("label")
    x, y = p.e.dict_find(a, q), p.e.dict_find(b, q)
    p.prove((x is None) == (y is None), what)
    if x is None or y is None:
        return
    x, y = p.e.dict_find(x[1], l), p.e.dict_find(y[1], l)
    p.prove((x is None) == (y is None), what)
    if x is not None and y is not None:
        p.eq(x[1], y[1], what)


class Configured(Invariant):
    """After k rules the configuration is C(k); C(k + 1) is C(k) with what rule k adds."""

    def __init__(self, p, ref):
        Invariant.__init__(self)
        self.p, self.ref, self.now = p, ref, None

    def applies(self, e, s, cb):
        self.touch = e.touched(s, cb)
        return any(a == self.ref.a for a, f in self.touch)

    def discover(self, e, s, cb):
        self.touch = {(a, f) for a, f in self.touch if isinstance(e.heap[a], HEnv)}
        same_config(self.p, self.ref, config(self.p, z3.IntVal(0)), "before any rule the configuration is as it was")

    def havoc(self, e, k):
        p = self.p
        for a, f in self.touch:
            was = e.heap[a].attrs.get(f)
            e.heap[a].attrs[f] = e.fresh("int", "some") if type(was) is int or isinstance(was, Sym) and was.kind == "int" else Poison("what a loop leaves")
        e.heap[self.ref.a] = e.heap[config(p, k).a].clone()
        self.now = k

    def frame(self, e):
        return set(self.touch) | {(self.ref.a, None)}

    def after(self, e, k):
        want = config(self.p, k)
        add_rule(self.p, want, k)
        same_config(self.p, self.ref, want, "a rule adds its condition, from its numbers, under its label to its pattern, and changes nothing else")


@section("SLIMetricFactory.configure")
def configure(p):
    def one():
        f = p.no_raise(lambda: p.new(FACT))
        p.eq(p.a(f, "config"), p.dict(), "nothing is configured at first")
        ref = config(p, z3.IntVal(0))
        p.set(f, "config", ref)
        how = p.e.choose(3)
        if how < 2:
            p.no_raise(lambda: p.m(f, "configure", p.dict([[], [("plugin_sli", p.dict([("other", p.str("other"))]))]][how])))
            same_config(p, p.a(f, "config"), config(p, z3.IntVal(0)), "without rules nothing changes")
            return
        lines = rule_lines(p)
        text = p.str("rules")
        p.e.strspec_decl["strip"] = lambda t: {"\n": [lines], "lines": [lines]}
        inv = Configured(p, ref)
        p.e.invariants.append(lambda e, seg, base, src: inv if base.root is lines or p.valid(zi(base.n) == lines.n) else None)
        p.no_raise(lambda: p.m(f, "configure", p.dict([("plugin_sli", p.dict([("rules", text)]))])))
        p.prove(inv.now is not None and inv.now == lines.n, "every rule has had its turn")
        same_config(p, p.a(f, "config"), config(p, lines.n), "what is configured is what the rules added")
    p.paths(one)
