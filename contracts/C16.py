"""The router: any rules text, any message, any number of rules; each rule sees what the rules before it left."""
import z3
from pyded.core import HEnv, HInst, HList, Poison, Sym, zi, zs
from pyded.proof import section
from pyded.seqs import Invariant, LazyIter
from contracts.common import *

ROUTER = "txstatsd.server.router:Router"
R_ = "txstatsd.server.router:"
BASE_ = PROC + "BaseMessageProcessor"
FUNCTIONS = ["Router.__init__/build_rules/build_condition/process_message", "Router.build_condition_any/not/metric_type/path_like",
             "Router.build_target_drop/rewrite/set_metric_type/redirect_udp/redirect_tcp", "BaseMessageProcessor.rebuild_message/process",
             "TCPRedirectClientFactory.__init__/buildProtocol/write", "TCPRedirectProtocol.__init__/write"]
TRUSTED = ["fnmatch.fnmatch, and the match and sub of a compiled regular expression, are the functions of their arguments that their documentation describes",
           "UDPServer and setServiceParent start the redirecting client with the service (checked by C28)", "Deferred.addCallback and callback"]
ASSUMPTIONS = ["words of a rule contain no white space other than the blanks between them", "a message has its value and type as the first two fields (C01)"]
B = z3.BoolSort()
S_, I_ = z3.StringSort(), z3.IntSort()
COND = z3.Function("accepts", I_, S_, S_, I_, B)
REBUILD = z3.Function("rebuilt", S_, S_, I_, S_)


def fresh_message(p):
    """A message: its type, name and fields (opaque: what they are does not matter to the router)."""
    return p.str("type"), p.str("key"), p.int("fields")


def rebuilt(p):
    p.e.contracts[BASE_ + ".rebuild_message"] = lambda e, f, a, k: Sym("str", REBUILD(a[1].t if isinstance(a[1], Sym) else zs(a[1]), zs(a[2]), zi(a[3])))


def text_of(t, k, f):
    return Sym("str", REBUILD(zs(t), zs(k), zi(f)))


def a_router(p, service=None):
    """A router, constructed with no rules."""
    p.external("twisted.internet.defer.succeed", lambda e, a, k: a_deferred(p))
    w = p.trace()
    flush = p.stub("flush")
    inner = p.stub("processor", {"process_message": p.recorder(w), "flush": flush})
    kw = {} if service is None else {"service": service}
    r = p.no_raise(lambda: p.new(ROUTER, inner, "", **kw))
    return r, inner, w


class Rules(object):
    """Any number of rules, of any conditions and targets."""

    def __init__(self, p):
        self.p, e = p, p.e
        self.n = p.int("rules").t
        p.assume(self.n >= 0)
        self.calls = p.trace()
        outn = z3.Function("outputs", I_, S_, S_, I_, I_)
        ot, ok, of = (z3.Function("output_" + n, I_, S_, S_, I_, I_, s) for n, s in [("type", S_), ("key", S_), ("fields", I_)])
        self.none = z3.Function("dropped", I_, S_, S_, I_, B)
        from pyded.core import Family
        from pyded.seqs import Base
        mk = lambda ps: Base("outputs", outn(*ps), lambda e, i: (Sym("str", ot(*(list(ps) + [zi(i)]))), Sym("str", ok(*(list(ps) + [zi(i)]))), Sym("int", of(*(list(ps) + [zi(i)])))))
        self.outputs = Family("outputs", mk)
        self.outn = outn
        self.base = p.base("rule", None, n=self.n, mk=lambda e, i: self.rule(zi(i)))

    def out(self, i, t, k, f):
        ps = [i, zs(t), zs(k), zi(f)]
        self.p.assume(self.outn(*[z3.simplify(x) for x in ps]) >= 0)
        return self.p.listof(self.outputs.get(ps))

    def rule(self, i):
        p = self.p

        def target(e, a, k):
            t, key, f = a
            e.list_append(self.calls, (t, key, f))
            if e.branch(self.none(i, zs(t), zs(key), zi(f))):
                return None
            return self.out(i, t, key, f)
        return (Builtin("condition", lambda e, a, k: Sym("bool", COND(i, zs(a[0]), zs(a[1]), zi(a[2])))), Builtin("target", target))

    def step(self, i, messages):
        """What rule i makes of the messages, and which it acted on: its condition decides on each, in order."""
        p = self.p
        left, acted = p.trace(), p.trace()

        def one(m):
            t, k, f = m
            if not p.e.branch(COND(i, zs(t), zs(k), zi(f))):
                p.e.list_append(left, m)
                return
            p.e.list_append(acted, m)
            if not p.e.branch(self.none(i, zs(t), zs(k), zi(f))):
                p.e.list_extend(left, self.out(i, t, k, f))
        p.e.iterate(messages, one)
        return left, acted


class Applied(Invariant):
    """After k rules the messages are M(k); M(k + 1) is what rule k makes of M(k)."""

    def __init__(self, p, rules):
        Invariant.__init__(self)
        self.p, self.rules = p, rules
        self.inside = self.now = None

    def discover(self, e, s, cb):
        before = {a: dict(o.attrs) for a, o in e.heap.items() if isinstance(o, HEnv)}
        self.touch = e.touched(s, cb)
        cands = []
        for a, f in self.touch:
            v = before.get(a, {}).get(f)
            if isinstance(v, Ref) and isinstance(e.heap.get(v.a), HList) and e.list_len(v) == 1:
                cands.append((a, f))
        if len(cands) != 1:
            raise Unsupported("the rules loop carries %d lists" % len(cands))
        self.var = cands[0]
        was = e.heap[self.var[0]].attrs[self.var[1]]
        e.heap[self.var[0]].attrs[self.var[1]] = self.p.listof(self.messages(e.fresh("int", "probe").t))
        self.touch = self.touch | e.touched(s, cb)
        e.heap[self.var[0]].attrs[self.var[1]] = was
        self.lists = {a for a, f in self.touch if isinstance(e.heap[a], HList)} - {self.rules.calls.a}
        if self.lists:
            raise Unsupported("the rules loop changes a list in place")
        self.p.eq(e.heap[self.var[0]].attrs[self.var[1]], self.p.list(self.first), "before any rule there is the message as it came")

    def messages(self, k):
        p = self.p
        nm = z3.Function("left", I_, I_)
        t, ke, f = (z3.Function("left_" + n, I_, I_, s) for n, s in [("type", S_), ("key", S_), ("fields", I_)])
        p.assume(nm(k) >= 0)
        self.count = nm(k)
        return p.base("messages", None, n=nm(k), mk=lambda e, j: (Sym("str", t(k, zi(j))), Sym("str", ke(k, zi(j))), Sym("int", f(k, zi(j)))))

    def havoc(self, e, k):
        p = self.p
        self.now, self.at = self.messages(k), k
        for a, fl in self.touch:
            if isinstance(e.heap[a], HEnv) and (a, fl) != self.var:
                e.heap[a].attrs[fl] = Poison("what a loop leaves")
        e.heap[self.var[0]].attrs[self.var[1]] = p.listof(self.now)
        e.heap[self.rules.calls.a].segs = []

    def frame(self, e):
        return set(self.touch) | {(self.rules.calls.a, None)}

    def before(self, e, k):
        self.inside = k

    def after(self, e, k):
        p = self.p
        left, acted = self.rules.step(k, p.listof(self.now))
        if p.e.choose(2):
            p.eq(e.heap[self.var[0]].attrs[self.var[1]], left, "a rule acts on the messages it accepts and leaves the others, in order")
        else:
            p.eq(self.rules.calls, acted, "a rule's target is called once for each message its condition accepts, with its current type, name and fields")
        self.inside = None


@section("process_message")
def process(p):
    def one():
        rebuilt(p)
        r, inner, sent = a_router(p)
        rules = Rules(p)
        p.set(r, "rules", p.listof(rules.base))
        m = fresh_message(p)
        inv = Applied(p, rules)
        inv.first = m
        p.e.invariants.append(lambda e, seg, base, src: inv if base.root is rules.base else None)
        p.no_raise(lambda: p.m(r, "process_message", text_of(*m), *m))
        if inv.inside is not None:      # it ended within rule k
            p.prove(inv.count == 0, "it ends early only when no message is left")
            p.eq(rules.calls, p.list(), "with nothing more done")
            p.eq(sent, p.list(), "and nothing handed on")
            left, _ = rules.step(inv.inside, p.listof(p.base("none", None, n=0, mk=lambda e, i: m)))
            p.eq(left, p.list(), "as nothing comes of nothing")
            return
        p.prove(rules.n == (0 if inv.now is None else inv.at), "every rule has had its turn")
        want = p.trace()
        p.e.iterate(p.list(m) if inv.now is None else p.listof(inv.now), lambda m: p.e.list_append(want, (text_of(*m),) + tuple(m)))
        p.eq(sent, want, "what remains reaches the processor once each, in order, with a text that says what it is")
    p.paths(one)


@section("no rules")
def no_rules(p):
    def one():
        rebuilt(p)
        r, inner, sent = a_router(p)
        m = fresh_message(p)
        p.eq(p.a(r, "rules"), p.list(), "an empty text is no rules")
        p.same(p.a(r, "flush"), p.e.getattr_(inner, "flush"), "flushing is the processor's")
        p.no_raise(lambda: p.m(r, "process_message", text_of(*m), *m))
        p.eq(sent, p.list((text_of(*m),) + m), "without rules a message passes")
    p.paths(one)


@section("rebuild_message")
def rebuild(p):
    def one():
        r, _, _ = a_router(p)
        key, v, t0, t = p.str("key"), p.str("value"), p.str("was"), p.str("type")
        rest = [p.str("rate")] if p.e.choose(2) else []
        fields = p.list(v, t0, *rest)
        x = p.no_raise(lambda: p.m(r, "rebuild_message", t, key, fields))
        p.eq(x, cat(p, key, ":", v, "|", t, *sum([["|", y] for y in rest], [])), "the text of a message is its name, value, current type and other fields")
        p.eq(fields, p.list(v, t0, *rest), "its fields stay as they are")
    p.paths(one)


@section("process")
def entry(p):
    def one():
        r, _, _ = a_router(p)
        got = p.trace()
        p.e.contracts[ROUTER + ".process_message"] = lambda e, f, a, k: e.list_append(got, tuple(a[1:]))
        key, v, t = p.str("name"), p.str("value"), p.str("type")
        for x, w in ((key, ":| \t\r\n\x0b\x0c"), (v, "|"), (t, "|")):
            p.e.strspec[x.t.sexpr()] = {"without": w, "solid": True, "ascii": True}
        p.e.contracts[PROC + "normalize_key"] = lambda e, f, a, k: a[0]
        rest = [p.str("rate")] if p.e.choose(2) else []
        for x in rest:
            p.e.strspec[x.t.sexpr()] = {"without": "|", "solid": True, "ascii": True}
        line = cat(p, key, ":", v, "|", t, *sum([["|", y] for y in rest], []))
        p.no_raise(lambda: p.m(r, "process", line))
        if p.e.list_len(got) == 1:
            g = p.e.list_get(got, 0)
            p.eq(g[1:], (t, key, p.list(v, t, *rest)), "a line enters with its type, name and fields")
        else:
            p.eq(got, p.list(None), "a line enters once")
    p.paths(one)


# the text of the rules
def word(p, n):
    w = p.str(n)
    p.e.strspec[w.t.sexpr()] = {"without": " \t\r\n\x0b\x0c", "solid": True, "ascii": True}
    p.assume(z3.Length(w.t) > 0)
    return w


def phrase(p, name, words):
    """A text of these words, with blanks between and perhaps around them."""
    s = p.str(name)
    pieces = [[""]] if p.e.choose(2) else []
    for x in words:
        pieces.append([x] if not hasattr(x, "root") else x)
    pieces += [[""]] if p.e.choose(2) else []
    p.e.strspec[s.t.sexpr()] = {" ": pieces, None: [x for x in pieces if x != [""]]}
    return s


CONDITIONS = ["any", "not", "metric_type", "path_like"]
TARGETS = ["drop", "rewrite", "set_metric_type", "redirect_udp", "redirect_tcp"]


def words_base(p, name):
    f = z3.Function(p.e.name(name), I_, S_)
    n = p.int("number_of_" + name).t
    p.assume(n >= 0)
    p.e.strspec_decl[f.name()] = lambda t: {"without": " \t\r\n\x0b\x0c", "solid": True, "ascii": True}
    b = p.base(name, None, n=n, mk=lambda e, i: Sym("str", f(i)), facts=[lambda e, i, v: [z3.Length(f(i)) > 0]])
    b.scalar = "str"
    return b


def kind(p, prefix, known, name):
    """Some name, and which of the known ones it is (or None)."""
    w = word(p, name)
    for k in known:
        if p.e.branch(w.t == z3.StringVal(k)):
            return k, k
    return w, None


@section("build_condition")
def conditions(p):
    def one():
        r, _, _ = a_router(p)
        got = p.trace()
        made = p.stub("condition")
        name, known = kind(p, "build_condition_", CONDITIONS, "condition")
        for k in CONDITIONS:
            def f(e, fn, a, kw, k=k):
                # (any number of words may come as a list)
                args = [x.ref if hasattr(x, "ref") else x for x in a[1:]]
                e.list_append(got, (k, star(p, args)))
                return made
            p.e.contracts[ROUTER + ".build_condition_" + k] = f
        if known in ("any",):
            args = []
        elif known == "path_like":
            args = [word(p, "pattern")]
        else:
            args = [words_base(p, "words")]
        s = phrase(p, "text", [name] + args)
        if known is None:
            p.raises(lambda: p.m(r, "build_condition", s), "Exception", "an unknown condition is rejected")
            return
        c = p.no_raise(lambda: p.m(r, "build_condition", s))
        p.same(c, made, "a condition is made by its name")
        p.eq(got, p.list((known, star(p, args))), "once, from its words")
    p.paths(one)


def star(p, args):
    out = p.trace()
    for x in args:
        if hasattr(x, "root"):
            p.e.list_extend(out, p.listof(x))
        elif isinstance(x, Ref):
            p.e.list_extend(out, x)
        else:
            p.e.list_append(out, x)
    return out


@section("build_rules")
def build(p):
    def one():
        r, _, _ = a_router(p)
        line, ct, tt = (z3.Function(n, I_, S_) for n in ("line", "condition_text", "target_text"))
        tn = z3.Function("target_name", I_, S_)
        tw, tl = z3.Function("target_word", I_, I_, S_), z3.Function("target_words", I_, I_)
        n = p.int("lines").t
        p.assume(n >= 0)
        CF, TF = z3.Function("condition_made", S_, I_), z3.Function("target_made", I_, I_)
        mode = p.e.choose(4)    # known targets; unknown ones; unknown conditions; lines with no arrow, or two
        p.e.contracts[ROUTER + ".build_condition"] = lambda e, f, a, k: Sym("int", CF(zs(a[1]))) if mode != 2 else e.throw("ValueError")
        which = TARGETS[p.e.choose(len(TARGETS))]
        solid = {"without": " \t\r\n\x0b\x0c", "solid": True, "ascii": True}
        halves = p.e.choose(2) * 2 + 1 if mode == 3 else 2
        third = z3.Function("third_text", I_, S_)
        p.e.strspec_decl["line"] = lambda t: {"=>": [[Sym("str", f(t.arg(0))) for f in [line, ct, tt][:halves]] if halves == 1 else
                                                     [Sym("str", f(t.arg(0))) for f in [ct, tt, third][:halves]]]}
        argc = {"drop": 0, "rewrite": 2, "set_metric_type": 1, "redirect_udp": 2, "redirect_tcp": 2}[which]
        if which in ("rewrite", "set_metric_type"):
            argc += p.e.choose(2)
        name = which if mode != 1 else None
        around = [[""], []][p.e.choose(2)]      # whether there are blanks next to the arrow and at the end
        args = [z3.Function("word%d" % i, I_, S_) for i in range(argc)]
        for a in args:
            p.e.strspec_decl[a.name()] = lambda t: solid
        p.e.strspec_decl["target_name"] = lambda t: solid

        def pieces(t):
            i = t.arg(0)
            first = name if name is not None else Sym("str", tn(i))
            ws = [first] + [Sym("str", a(i)) for a in args]
            return {" ": [around + ws + around], None: [ws]}
        p.e.strspec_decl["target_text"] = pieces

        def given(i, x):
            f = [z3.Length(a(i)) > 0 for a in args] + [z3.Length(tn(i)) > 0]
            if mode == 1:
                f += [tn(i) != z3.StringVal(k) for k in TARGETS]
            return f
        empty = z3.Function("is_empty", I_, B)
        lines = p.base("lines", None, n=n, mk=lambda e, i: Sym("str", line(i)), facts=[lambda e, i, v: given(i, v)])
        lines.scalar = "str"
        text = p.str("rules")
        p.e.strspec[text.t.sexpr()] = {"\n": [lines], "lines": [lines]}
        for k in TARGETS:
            def f(e, fn, a, kw, k=k):
                if k != which or len(a) != 1 + argc:
                    return Sym("int", z3.IntVal(-1))
                i = a[1].t.arg(0) if argc else None
                ok = all(isinstance(x, Sym) and z3.is_app(x.t) and x.t.decl().eq(w) and x.t.arg(0).eq(i) for x, w in zip(a[1:], args))
                return Sym("int", TF(i) if ok and argc else z3.IntVal(7 if ok else -1))
            p.e.contracts[ROUTER + ".build_target_" + k] = f
        if mode:
            first = p.int("first").t
            p.assume(z3.And(first >= 0, first < n, z3.Length(line(first)) > 0))
            try:
                x = p.m(r, "build_rules", text)
            except Exception as ex:
                if type(ex).__name__ not in ("PyExc", "ConsumerExc"):
                    raise
                p.prove(True, "a text with an unknown condition or target is rejected")
                return
            # no line may have made it to here: every line is unknown, and there is one that is not empty
            p.e.elem(lines, first)
            p.prove(False, "a text with an unknown condition or target is rejected")
            return
        x = p.no_raise(lambda: p.m(r, "build_rules", text))
        want = p.trace()

        def one_line(l):
            if p.e.branch(z3.Length(l.t) > 0):
                i = l.t.arg(0)
                p.e.list_append(want, (Sym("int", CF(ct(i))), Sym("int", TF(i) if argc else z3.IntVal(7))))
        p.e.iterate(p.listof(lines), one_line)
        p.eq(x, want, "each line that is not empty is one rule, in order: its condition and its target, from its words")
    p.paths(one)


@section("conditions")
def condition_functions(p):
    def one():
        r, _, _ = a_router(p)
        m = fresh_message(p)
        what = p.e.choose(4)
        if what == 0:
            c = p.no_raise(lambda: p.m(r, "build_condition_any"))
            p.prove(zb_(p.e.truth(p.no_raise(lambda: p.call(c, *m)))), "any accepts every message")
        elif what == 1:
            asked = p.trace()
            fn = lambda e, a, k: (e.list_append(asked, tuple(a)), Sym("bool", COND(zi(0), zs(a[0]), zs(a[1]), zi(a[2]))))[1]
            texts = p.trace()
            p.e.contracts[ROUTER + ".build_condition"] = lambda e, f, a, k: (e.list_append(texts, a[1]), Builtin("other", fn))[1]
            words = words_base(p, "words")
            c = p.no_raise(lambda: p.e.call(p.a(r, "build_condition_not"), p.e.star_args(p.a(r, "build_condition_not"), [], p.listof(words)), {}))
            p.eq(p.e.list_len(texts), 1, "not makes one condition of its words")
            t = p.e.list_get(texts, 0)
            pieces = p.trace()
            p.e.iterate(p.m(t, "split", " "), lambda x: p.e.list_append(pieces, x) if p.e.branch(p.e.truth(x)) else None)
            p.eq(pieces, p.listof(words), "of these words, in order")
            v = p.no_raise(lambda: p.call(c, *m))
            p.prove(zb_(p.e.truth(v)) == z3.Not(COND(zi(0), zs(m[0]), zs(m[1]), zi(m[2]))), "not accepts what its condition does not")
        elif what == 2:
            types = words_base(p, "types")
            f = p.a(r, "build_condition_metric_type")
            c = p.no_raise(lambda: p.e.call(f, p.e.star_args(f, [], p.listof(types)), {}))
            v = p.e.branch(p.e.truth(p.no_raise(lambda: p.call(c, *m))))
            w = p.e.branch(p.e.list_contains(p.listof(types), m[0]))
            p.prove(v == w, "metric_type accepts the messages of any of its types")
        else:
            pat = word(p, "pattern")
            c = p.no_raise(lambda: p.m(r, "build_condition_path_like", pat))
            v = p.e.truth(p.no_raise(lambda: p.call(c, *m)))
            w = p.e.truth(p.e.call(p.e.ext("fnmatch.fnmatch"), [m[1], pat], {}))
            p.prove(zb_(v) == zb_(w), "path_like accepts the names that match its pattern")
    p.paths(one)


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def outcome(p, result):
    """What a target makes of a message: a list."""
    out = p.trace()
    if result is not None:
        p.no_raise(lambda: p.e.iterate(result, lambda v: p.e.list_append(out, v)))
    return out


@section("drop, rewrite and set_metric_type")
def targets(p):
    def one():
        r, _, _ = a_router(p)
        m, m2 = fresh_message(p), fresh_message(p)
        t, k, f = m
        what = p.e.choose(3)
        dup = p.e.choose(3)
        extra = [[], ["dup"], [word(p, "dup")]][dup]
        if dup == 2:
            p.assume(extra[0].t != z3.StringVal("dup"))
        if what == 0:
            c = p.no_raise(lambda: p.m(r, "build_target_drop"))
            p.eq(outcome(p, p.no_raise(lambda: p.call(c, *m))), p.list(), "drop removes the message")
            return
        if what == 1:
            pat, repl = word(p, "pattern"), word(p, "repl")
            sub, mat = z3.Function("re_sub", S_, S_, S_, S_), z3.Function("re_match", S_, S_, B)
            p.external("re.compile", lambda e, a, kw: p.stub("re", {
                "match": Builtin("match", lambda e, b, kw: p.stub("match") if e.branch(mat(zs(a[0]), zs(b[0]))) else None),
                "sub": Builtin("sub", lambda e, b, kw: Sym("str", sub(zs(a[0]), zs(b[0]), zs(b[1]))))}))
            p.external("re.sub", lambda e, a, kw: Sym("str", sub(zs(a[0]), zs(a[1]), zs(a[2]))))
            p.external("re.match", lambda e, a, kw: p.stub("match") if e.branch(mat(zs(a[0]), zs(a[1]))) else None)
            c = p.no_raise(lambda: p.m(r, "build_target_rewrite", pat, repl, *extra))
            for t, k, f in (m, m2):
                want = [(t, Sym("str", sub(zs(pat), zs(repl), zs(k))), f)]
                if dup == 1 and p.e.branch(mat(zs(pat), zs(k))):
                    want = [(t, k, f)] + want
                p.eq(outcome(p, p.no_raise(lambda: p.call(c, t, k, f))), p.list(*want),
                     "rewrite substitutes in the name, after the original where dup is asked for and the pattern matches at its start")
            return
        to = word(p, "to")
        c = p.no_raise(lambda: p.m(r, "build_target_set_metric_type", to, *extra))
        for t, k, f in (m, m2):
            want = [(t, k, f)] if dup == 1 else []
            p.eq(outcome(p, p.no_raise(lambda: p.call(c, t, k, f))), p.list(*(want + [(to, k, f)])), "set_metric_type replaces the type, after the original where dup is asked for")
    p.paths(one)


@section("redirects")
def redirects(p):
    def one():
        rebuilt(p)
        service = p.stub("service") if p.e.choose(3) else None
        udp = p.e.choose(2) == 0
        sent, made, parents = p.trace(), p.trace(), p.trace()
        d = a_deferred(p, callback=Builtin("callback", lambda e, a, k: None))
        p.external("twisted.internet.defer.Deferred", lambda e, a, k: d)
        r, _, _ = a_router(p, service)
        port = p.int("port")
        p.assume(z3.And(port.t >= 0, port.t < 65536))
        host = word(p, "host")
        client = p.stub("client", {"write": p.recorder(sent)})
        p.e.contracts["txstatsd.protocol:TwistedStatsDClient.create"] = lambda e, f, a, k: (e.list_append(made, tuple(x for x in a if not hasattr(x, "mro"))), client)[1]
        p.e.contracts[R_ + "TCPRedirectClientFactory"] = lambda e, c, a, k: client
        svc = lambda n: p.stub(n, {"setServiceParent": p.recorder(parents, n)})
        proto = p.trace()
        p.e.contracts["txstatsd.protocol:StatsDClientProtocol"] = lambda e, c, a, k: (e.list_append(proto, a[0]), p.stub("protocol"))[1]
        p.external("twisted.application.internet.UDPServer", lambda e, a, k: svc("udp"))
        p.e.contracts[R_ + "TCPRedirectService"] = lambda e, c, a, k: (e.list_append(made, (a[0], a[1])), e.list_append(proto, a[2]), svc("tcp"))[2]
        t = p.no_raise(lambda: p.m(r, "build_target_redirect_udp" if udp else "build_target_redirect_tcp", host, p.e.to_str(port)))
        if service is not None:
            p.eq(made, p.list((host, port)), "one client is made, for the host and port")
            p.eq(parents, p.list(("udp" if udp else "tcp", service)), "and runs with the service")
            p.eq(p.e.list_len(proto), 1, "one protocol serves it")
            p.same(p.e.list_get(proto, 0), client, "the client's")
        want = p.trace()
        for _ in range(2):
            m = fresh_message(p)
            p.eq(outcome(p, p.no_raise(lambda: p.call(t, *m))), p.list(m), "a redirect passes the message on")
            if service is not None:
                p.e.list_append(want, (text_of(*m),))
            p.eq(sent, want, "and sends one copy, with its current name, type and fields")
    p.paths(one)
