"""Values, heap and path exploration of the pyded verifier.

A program under verification is executed symbolically over these values.  Concrete scalars are Python's own (int, bool,
Fraction for floats, str, None, tuple); symbolic scalars are Sym(kind, z3 term).  Mutable things live on the heap and
are named by Ref.  Everything that a path can change (heap, path condition, instantiated facts) can be snapshotted, so
that a part of the program (a loop body) can be explored on its own.
"""
import itertools
import time
from fractions import Fraction

import z3

U = z3.DeclareSort("U")


class Unsupported(Exception):
    """The code uses something outside the verified subset: its obligations cannot be discharged."""


class PathEnd(Exception):
    """This path is infeasible, or its obligations have been dealt with."""


class Undecided(Exception):
    pass


class Sym(object):
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.t)


class NonFin(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Ref(object):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return "#%d" % self.a


class Poison(object):
    """The value of a variable that a summarised loop has left undetermined."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


class HInst(object):
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def clone(self):
        return HInst(self.cls, self.attrs)


class HEnv(object):
    def __init__(self, vars=None, parent=None):
        self.attrs, self.parent = dict(vars or {}), parent

    def clone(self):
        return HEnv(self.attrs, self.parent)


class HList(object):
    """A list or deque: a sequence of segments, each a Python list of values, a Base or a Comp."""

    def __init__(self, segs=None, kind="list"):
        self.segs, self.kind = list(segs or []), kind

    def clone(self):
        return HList([list(s) if isinstance(s, list) else s for s in self.segs], self.kind)


class HDict(object):
    """A dict or set: entries [key, value, index in the rest or None, value there] whose keys are known to be present (ABSENT: known to be missing) and
    pairwise different, and possibly a symbolic rest that holds none of those keys.  later: unresolved Comps of (key,
    value) pairs written after everything before them."""

    def __init__(self, entries=None, rest=None, kind="dict", comps=None):
        self.entries, self.rest, self.kind = [list(e) for e in entries or []], rest, kind
        self.comps = list(comps or [])
        self.members = None             # a set made from a list: (comps, segments of the list) at that time

    def clone(self):
        d = HDict(self.entries, self.rest, self.kind, self.comps)
        d.members = self.members
        return d


class HIter(object):
    def __init__(self, items, pos=0):
        self.items, self.pos = items, pos

    def clone(self):
        return HIter(self.items, self.pos)


class HGen(object):
    """A generator: func called with env, not yet started, or (control != None) suspended."""

    def __init__(self, func, env, control=None, done=False):
        self.func, self.env, self.control, self.done = func, env, control, done

    def clone(self):
        return HGen(self.func, self.env, self.control, self.done)


ABSENT = type("Absent", (), {"__repr__": lambda s: "ABSENT"})()


class Func(object):
    def __init__(self, node, module, env, name, defaults, owner=None, qual=None, isgen=False, islambda=False):
        self.node, self.module, self.env, self.name, self.defaults = node, module, env, name, defaults
        self.owner, self.qual, self.isgen, self.islambda = owner, qual, isgen, islambda

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassV(object):
    def __init__(self, name, bases, env, module, newstyle=True):
        self.name, self.bases, self.env, self.module = name, bases, env, module
        self.mro = linearize(self)

    def __repr__(self):
        return "<class %s>" % self.name


def linearize(c):
    seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in c.bases] + [list(c.bases)]
    out = [c]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("mro of %s" % c.name)
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
        seqs = [s for s in seqs if s]
    return out


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class BoundM(object):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.obj)

    def __eq__(self, o):
        return isinstance(o, BoundM) and o.obj == self.obj and o.func == self.func

    def __hash__(self):
        return 1


class Descr(object):
    """classmethod, staticmethod or property."""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f


class Partial(object):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV(object):
    def __init__(self, name, env):
        self.name, self.env = name, env


class ExtV(object):
    """Something defined outside the code under verification, known by its dotted path only."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Stub(object):
    """A collaborator supplied by a proof: attribute -> value or Python function(engine, args, kwargs).  term: what
    identifies it when it is an element of a symbolic collection."""

    def __init__(self, name, attrs=None, call=None, term=None, nocmp=False):
        self.name, self.attrs, self.call, self.term = name, attrs or {}, call, term

    def __repr__(self):
        return "<stub %s%s>" % (self.name, "" if self.term is None else " %s" % self.term)


class Family(object):
    """Symbolic sequences that are one function of some parameters (the index of the loop they were made in)."""

    def __init__(self, name, make):
        self.name, self.make, self.members, self.cache = name, make, {}, {}

    def get(self, params):
        params = tuple(z3.simplify(p) for p in params)
        k = tuple(p.sexpr() for p in params)
        if k not in self.members:
            b = self.make(params)
            b.fam, b.params = self, params
            self.members[k] = b
        return self.members[k]


class Base(object):
    """A symbolic sequence: n elements, elem(engine, index) -> value.  facts: functions (engine, index, value) -> list
    of z3 facts that hold of every element.  root/off: the base that this one is a slice of."""
    ids = itertools.count(1)

    def __init__(self, name, n, elem, facts=(), root=None, off=None, mutable=False, scalar=None, pairs=None):
        self.id = next(Base.ids)
        self.name, self.n, self._elem, self.facts = name, n, elem, list(facts)
        self.root, self.off = root or self, off if off is not None else 0
        self.mutable, self.scalar = mutable, scalar
        self.pairs = pairs          # (engine, i, vi, j, vj) -> facts relating any two elements
        self.params = ()
        self.flat = root.flat if root is not None else False    # elements are tuples of scalars
        if root is None:
            self.fam = Family(name, None)
            self.fam.members[()] = self

    @property
    def cache(self):
        return self.fam.cache

    def __repr__(self):
        return "<base %s%s>" % (self.name, list(self.params) or "")


class Comp(object):
    """What a summarised loop produced: for each index i of base, in order, the items of the one case whose condition
    holds at i.  cases: [(conditions, assumptions, items)], over the index variable ix."""

    def __init__(self, base, ix, cases):
        self.base, self.ix, self.cases = base, ix, cases

    def __repr__(self):
        return "<comp over %r: %s>" % (self.base, self.cases)


def zi(x):
    if isinstance(x, Sym):
        if x.kind == "bool":
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported("not an int: %r" % (x,))


def zr(x):
    if isinstance(x, Sym):
        if x.kind == "float":
            return x.t
        if x.kind in ("int", "bool"):
            t = zi(x)
            if z3.is_int_value(t):
                return z3.RealVal(t.as_long())
            return z3.ToReal(t)
    elif isinstance(x, (bool, int, Fraction)):
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
    elif isinstance(x, z3.ExprRef):
        return x
    raise Unsupported("not a number: %r" % (x,))


def esc(s):
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


def zs(x):
    if isinstance(x, str):
        return esc(x)
    if isinstance(x, Sym) and x.kind == "str":
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported("not a string: %r" % (x,))


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported("not a condition: %r" % (x,))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sym) and v.kind == "int")


def is_float(v):
    return isinstance(v, Fraction) or (isinstance(v, Sym) and v.kind == "float")


def is_boolv(v):
    return isinstance(v, bool) or (isinstance(v, Sym) and v.kind == "bool")


def is_num(v):
    return is_int(v) or is_float(v) or is_boolv(v)


def is_str(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.kind == "str")


def lift(kind, t):
    """A value of that kind from a z3 term, concrete if the term is a literal."""
    if kind == "int" and z3.is_int_value(t):
        return t.as_long()
    if kind == "float" and z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if kind == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if kind == "str" and z3.is_string_value(t):
        return unesc(t.as_string())
    return Sym(kind, t)


def unesc(s):
    import re
    return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), s)


SORT = {"int": z3.IntSort(), "float": z3.RealSort(), "bool": z3.BoolSort(), "str": z3.StringSort(), "obj": U}


def free_consts(t, acc=None):
    """Names of the uninterpreted constants and functions in a term."""
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


class Path(object):
    def __init__(self, outcome, conds, assumed, heap):
        self.outcome, self.conds, self.assumed, self.heap = outcome, conds, assumed, heap


class Engine(object):
    """Explores the paths of a program; collects and discharges obligations."""

    def __init__(self, timeout_ms=8000, branch_ms=1500, deadline=None):
        self.solver = z3.Solver()
        self.timeout_ms, self.branch_ms = timeout_ms, branch_ms
        self.heap = {}
        self.next_addr = 1
        self.inst = {}                  # base id -> [(index term, value)] materialised on this path
        self.basefacts = {}             # base id -> extra facts that hold on this path
        self.basever = {}               # base root id -> version of its elements' mutable state
        self.conds, self.assumed = [], []
        self.prefix, self.trail, self.alts = [], [], []
        self.outer_replay = False
        self.loops = []                 # index variables of the loop bodies being explored
        self.counter = 0
        self.depth = 0
        self.obligations = {}           # name -> [discharged, failures]
        self.failures = []
        self.solver_time = 0.0
        self.queries = 0
        self.sums = []
        self.paths_run = 0
        self.max_paths = 20000
        self.deadline = deadline
        self.backends = {}
        self.covers = {}
        self.summaries = 0
        self.where = None
        self.silent = False         # obligations are not recorded while probing

    # fresh symbols ---------------------------------------------------------------------------------------------
    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh(self, kind, base="v"):
        n = self.name(base)
        if self.loops:
            f = z3.Function(n, *([z3.IntSort()] * len(self.loops) + [SORT[kind]]))
            return Sym(kind, f(*self.loops))
        return Sym(kind, z3.Const(n, SORT[kind]))

    # heap --------------------------------------------------------------------------------------------------------
    def alloc(self, o):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = o
        return Ref(a)

    def obj(self, r):
        return self.heap[r.a]

    def snapshot(self):
        return ({a: o.clone() for a, o in self.heap.items()}, self.next_addr,
                {k: list(v) for k, v in self.inst.items()}, {k: list(v) for k, v in self.basefacts.items()},
                dict(self.basever), len(self.conds), len(self.assumed), list(self.loops))

    def restore(self, s):
        heap, na, inst, bf, bv, nc, nas, loops = s
        self.heap = {a: o.clone() for a, o in heap.items()}
        self.next_addr = na
        self.inst = {k: list(v) for k, v in inst.items()}
        self.basefacts = {k: list(v) for k, v in bf.items()}
        self.basever = dict(bv)
        del self.conds[nc:]
        del self.assumed[nas:]
        self.loops = list(loops)

    # solver --------------------------------------------------------------------------------------------------------
    def check(self, extra, ms):
        if self.deadline and time.time() > self.deadline:
            raise Undecided("out of time")
        t0 = time.time()
        self.queries += 1
        self.solver.push()
        try:
            self.solver.set("timeout", ms)
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            return r, m
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t0

    def assume(self, c, decision=False):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        (self.conds if decision else self.assumed).append(c)
        self.solver.add(c)

    def branch(self, c):
        """The truth of c on this path; forks when both are possible."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            r1, _ = self.check([c], self.branch_ms)
            r0 = z3.sat
            if r1 != z3.unsat:
                r0, _ = self.check([z3.Not(c)], self.branch_ms)
            if r1 == z3.unsat:
                if self.check([z3.Not(c)], self.branch_ms)[0] == z3.unsat:
                    raise PathEnd()         # no state reaches this point
                d = False
            elif r0 == z3.unsat:
                d = True
            else:
                d = True
                self.alts.append(self.trail + [False])
        self.trail.append(d)
        self.assume(c if d else z3.Not(c), decision=True)
        return d

    def choose(self, n):
        """Nondeterministic choice among n alternatives."""
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.alts.append(self.trail + [j])
        self.trail.append(d)
        return d

    def replaying(self):
        return len(self.trail) < len(self.prefix)

    def explore(self, fn):
        """All paths of fn() from the current state, which is restored afterwards."""
        snap = self.snapshot()
        saved = (self.prefix, self.trail, self.alts, self.outer_replay)
        self.outer_replay = self.outer_replay or self.replaying()
        work = [[]]
        out = []
        self.depth += 1
        try:
            while work:
                self.paths_run += 1
                if self.paths_run > self.max_paths:
                    raise Unsupported("too many paths")
                if self.deadline and time.time() > self.deadline:
                    raise Undecided("out of time")
                self.restore(snap)
                self.solver.push()
                self.prefix, self.trail, self.alts = work.pop(), [], []
                try:
                    r = fn()
                    if not self.dead():
                        out.append(Path(r, self.conds[snap[5]:], self.assumed[snap[6]:],
                                        ({a: o.clone() for a, o in self.heap.items()}, dict(self.basever))))
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                    work.extend(self.alts)
        finally:
            self.depth -= 1
            self.prefix, self.trail, self.alts, self.outer_replay = saved
            self.restore(snap)
        return out

    def dead(self):
        return False

    # obligations ---------------------------------------------------------------------------------------------------
    def prove(self, c, name):
        if self.outer_replay or self.replaying() or self.silent:
            self.assume(c)
            return True
        ob = self.obligations.setdefault(name, [0, 0])
        if isinstance(c, bool):
            if c:
                ob[0] += 1
                self.backends["syntactic"] = self.backends.get("syntactic", 0) + 1
                return True
            r, m = self.check([], self.timeout_ms)
            if r == z3.unsat:
                ob[0] += 1
                raise PathEnd()
            self.fail(name, "sat" if r == z3.sat else "unknown", m, "false on a feasible path")
            raise PathEnd()
        s = z3.simplify(c)
        if z3.is_true(s):
            ob[0] += 1
            self.backends["syntactic"] = self.backends.get("syntactic", 0) + 1
            return True
        r, m, be = self.decide(z3.Not(c))
        if r == "unsat":
            ob[0] += 1
            self.backends[be] = self.backends.get(be, 0) + 1
            self.assume(c)
            return True
        self.fail(name, r, m, str(s)[:2000])
        self.assume(c)
        return False

    def decide(self, negated):
        r, m = self.check([negated], self.timeout_ms)
        if r == z3.unsat:
            return "unsat", None, "z3 (incremental)"
        if r == z3.sat:
            return "sat", m, "z3"
        for tactic in (None, "qfnra-nlsat", "smt"):
            t0 = time.time()
            self.queries += 1
            try:
                if tactic == "qfnra-nlsat":
                    s = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
                elif tactic == "smt":
                    s = z3.SimpleSolver()
                else:
                    s = z3.Solver()
                s.set("timeout", self.timeout_ms * 2)
                s.add(*self.solver.assertions())
                s.add(negated)
                r = s.check()
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
            self.solver_time += time.time() - t0
            if r == z3.unsat:
                return "unsat", None, "z3 (%s)" % (tactic or "fresh")
            if r == z3.sat:
                return "sat", m, "z3"
        r = self.cvc5(negated)
        if r == "unsat":
            return "unsat", None, "cvc5"
        return "unknown", None, None

    def cvc5(self, negated):
        import subprocess
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(negated)
        t0 = time.time()
        try:
            text = "(set-logic ALL)\n" + s.to_smt2()
            p = subprocess.run(["cvc5", "--lang=smt2", "--strings-exp", "--nl-ext-tplanes",
                                "--tlimit=%d" % (self.timeout_ms * 2)], input=text.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=self.timeout_ms / 500 + 10)
            out = p.stdout.decode().split()
            return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.queries += 1
            self.solver_time += time.time() - t0

    def fail(self, name, verdict, model, detail):
        self.obligations.setdefault(name, [0, 0])[1] += 1
        text = {}
        if model is not None:
            for d in model.decls():
                try:
                    v = model[d]
                    text[d.name()] = str(v)[:200]
                except Exception:
                    pass
        self.failures.append({"obligation": name, "verdict": verdict, "model": text, "detail": detail,
                              "path": [str(c)[:300] for c in self.conds[-30:]], "at": self.where,
                              "raw_model": model})

    def cover(self, name):
        """This point is reachable on a satisfiable path (the vacuity check of a precondition)."""
        if name in self.covers and self.covers[name]:
            return
        r, _ = self.check([], self.timeout_ms)
        self.covers[name] = self.covers.get(name, False) or r != z3.unsat
