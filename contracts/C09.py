"""Bounded samples.  Ghost state: for an arbitrary value w, how often it was recorded since the last clear, R(w), and the
number N of records.  Invariant: the sample holds min(capacity, N) values, w at most R(w) times, and exactly R(w) times
while N <= capacity."""
import z3
from pyded.core import Base, HList, Sym, zi, zr
from pyded.proof import section
from pyded.seqs import Invariant
from contracts.common import *

UNI = "txstatsd.stats.uniformsample:UniformSample"
EXPD = "txstatsd.stats.exponentiallydecayingsample:ExponentiallyDecayingSample"
FUNCTIONS = ["UniformSample.__init__", "UniformSample.clear", "UniformSample.size", "UniformSample.update",
             "UniformSample.get_values", "ExponentiallyDecayingSample.__init__", "ExponentiallyDecayingSample.clear",
             "ExponentiallyDecayingSample.size", "ExponentiallyDecayingSample.update",
             "ExponentiallyDecayingSample.get_values", "ExponentiallyDecayingSample.rescale"]
TRUSTED = ["bisect.insort(l, x) inserts x once into l and changes nothing else", "random.randint(a, b) is an integer from a to b",
           "random.random() is in (0, 1)", "math.exp is positive"]
ASSUMPTIONS = ["capacity is at least 1; random.random() never returns exactly 0.0 (probability 2**-53), which would raise",
               "priorities do not overflow (exponents are treated as reals)"]


def is_w(w):
    return lambda v: z3.If(zr(v) == w, z3.IntVal(1), z3.IntVal(0))


def second_is_w(w):
    return lambda v: z3.If(zr(v[1]) == w, z3.IntVal(1), z3.IntVal(0))


class Ghost(object):
    pass


def invariant(p, g, held, length, N, R):
    cap = g.cap
    return [("holds min(capacity, recorded) values", zi(length) == z3.If(N < cap, N, cap)),
            ("holds no value more often than it was recorded", zi(held) <= R),
            ("holds every recorded value until the capacity is reached", z3.Implies(N <= cap, zi(held) == R))]


def uniform(p):
    g = Ghost()
    g.cap = p.int("capacity").t
    p.assume(g.cap >= 1)
    o = p.new(UNI, Sym("int", g.cap))
    g.V = p.base("V", "float", n=g.cap)
    g.N, g.R, g.w = p.int("recorded").t, p.int("recorded_w").t, p.float("w").t
    p.assume(z3.And(g.N >= 0, g.R >= 0))
    p.set(o, "_values", p.listof(g.V))
    p.set(o, "_count", Sym("int", g.N))
    for nm, c in invariant(p, g, *uheld(p, o, g), g.N, g.R):
        p.assume(c)
    return o, g


def uheld(p, o, g):
    """(how often w is held, how many values are held), through the public methods."""
    held = p.no_raise(lambda: p.m(o, "get_values"))
    vals = p.a(o, "_values")
    n = p.e.list_len(held)
    part = p.e.segs_slice(p.e.obj(vals).segs, 0, n)
    def one():
        j = p.int("j")
        p.assume(z3.And(j.t >= 0, j.t < zi(n)))
        p.prove(zr(p.e.list_get(held, j)) == zr(p.e.list_get(vals, j)), "get_values() returns the part of the reservoir in use")
    p.e.counting.add("w")
    p.e.explore(one)
    return p.e.agg(part, "w", is_w(g.w), "int"), n


@section("UniformSample.__init__")
def u_init(p):
    def one():
        cap = p.int("capacity")
        p.assume(cap.t >= 1)
        o = p.no_raise(lambda: p.new(UNI, cap))
        p.eq(p.m(o, "get_values"), p.list(), "a new sample holds nothing")
        p.eq(p.m(o, "size"), 0, "its size is zero")
        p.prove(zi(p.e.list_len(p.a(o, "_values"))) == cap.t, "its reservoir has the given capacity")
        p.eq(p.a(o, "_count"), 0, "nothing is recorded")
    p.paths(one)


@section("UniformSample.clear")
def u_clear(p):
    def one():
        o, g = uniform(p)
        p.no_raise(lambda: p.m(o, "clear"))
        p.eq(p.m(o, "get_values"), p.list(), "a cleared sample holds nothing")
        p.eq(p.m(o, "size"), 0, "its size is zero")
        p.prove(zi(p.e.list_len(p.a(o, "_values"))) == g.cap, "its capacity stays")
        p.eq(p.a(o, "_count"), 0, "nothing is recorded since")
    p.paths(one)


@section("UniformSample.update")
def u_update(p):
    def one():
        o, g = uniform(p)
        x = p.float("x")
        p.no_raise(lambda: p.m(o, "update", x))
        R = g.R + z3.If(x.t == g.w, z3.IntVal(1), z3.IntVal(0))
        for nm, c in invariant(p, g, *uheld(p, o, g), g.N + 1, R):
            p.prove(c, nm)
        p.prove(zi(p.e.list_len(p.a(o, "_values"))) == g.cap, "the capacity stays")
        p.prove(zi(p.a(o, "_count")) == g.N + 1, "one more is recorded")
        p.prove(zi(p.m(o, "size")) == zi(p.e.list_len(p.m(o, "get_values"))), "size() is the number of values held")
    p.paths(one)


@section("UniformSample.get_values and size")
def u_read(p):
    def one():
        o, g = uniform(p)
        before = p.m(o, "get_values")
        p.prove(zi(p.m(o, "size")) == zi(p.e.list_len(before)), "size() is the number of values held")
        p.e.list_append(before, 1)
        for nm, c in invariant(p, g, *uheld(p, o, g), g.N, g.R):
            p.prove(c, "the list returned is the caller's own: " + nm)
    p.paths(one)


def decaying(p):
    g = Ghost()
    g.cap = p.int("capacity").t
    p.assume(g.cap >= 1)
    alpha = p.float("alpha")
    p.assume(alpha.t >= 0)
    o = p.new(EXPD, Sym("int", g.cap), alpha, clock(p))
    g.N, g.R, g.w = p.int("recorded").t, p.int("recorded_w").t, p.float("w").t
    n = p.int("held").t
    p.assume(z3.And(g.N >= 0, g.R >= 0, n == z3.If(g.N < g.cap, g.N, g.cap)))
    g.V = pairs(p, "V", n)
    p.set(o, "_values", p.listof(g.V))
    p.set(o, "count", Sym("int", n))
    p.set(o, "start_time", p.float("start"))
    p.set(o, "next_scale_time", p.float("next"))
    for nm, c in invariant(p, g, *dheld(p, o, g), g.N, g.R):
        p.assume(c)
    return o, g


def pairs(p, name, n):
    K = z3.Function(p.e.name(name + "_k"), z3.IntSort(), z3.RealSort())
    W = z3.Function(p.e.name(name + "_v"), z3.IntSort(), z3.RealSort())
    b = p.base(name, None, n=n, mk=lambda e, i: (Sym("float", K(zi(i))), Sym("float", W(zi(i)))),
               facts=[lambda e, i, v: [zr(v[0]) > 0]])
    b.flat = True
    return b


def dheld(p, o, g):
    p.e.counting.add("w")
    vals = p.e.obj(p.a(o, "_values")).segs
    return p.e.agg(vals, "w", second_is_w(g.w), "int"), p.e.segs_len(vals)


@section("ExponentiallyDecayingSample.__init__ and clear")
def d_init(p):
    def one():
        cap = p.int("capacity")
        p.assume(cap.t >= 1)
        o = p.no_raise(lambda: p.new(EXPD, cap, p.float("alpha"), clock(p)))
        for k in range(2):
            p.eq(p.m(o, "get_values"), p.list(), "holds nothing")
            p.eq(p.m(o, "size"), 0, "its size is zero")
            p.eq(p.a(o, "count"), 0, "nothing is recorded since")
            p.eq(p.a(o, "reservoir_size"), cap, "its capacity stays")
            o, g = decaying(p)
            cap = Sym("int", g.cap)
            p.no_raise(lambda: p.m(o, "clear"))
        p.eq(p.m(o, "get_values"), p.list(), "a cleared sample holds nothing")
        p.eq(p.a(o, "count"), 0, "nothing is recorded since the clear")
    p.paths(one)


def rescale_contract(p):
    """rescale by its contract: the pairs are replaced by as many, with the same values."""
    def f(e, func, args, kw):
        o = args[0]
        now = args[1]
        old = e.obj(e.getattr_(o, "_values")).segs
        n = e.segs_len(old)
        b = pairs(p, "rescaled", n if isinstance(n, int) else n.t)
        e.assume(zi(e.agg([b], "w", second_is_w(p.w), "int")) == zi(e.agg(old, "w", second_is_w(p.w), "int")))
        e.obj(o).attrs["_values"] = p.listof(b)
        e.obj(o).attrs["start_time"] = now
        e.obj(o).attrs["next_scale_time"] = e.fresh("float", "next_scale")
    return f


def positive(e):
    x = e.fresh("float", "random")
    e.assume(z3.And(x.t > 0, x.t < 1))
    return x


@section("ExponentiallyDecayingSample.update")
def d_update(p):
    def one():
        o, g = decaying(p)
        p.w = g.w
        p.external("random.random", lambda e, a, k: positive(e))
        p.e.contracts[EXPD + ".rescale"] = rescale_contract(p)
        x = p.float("x")
        p.no_raise(lambda: p.m(o, "update", x) if p.e.choose(2) else p.m(o, "update", x, p.float("timestamp")))
        R = g.R + z3.If(x.t == g.w, z3.IntVal(1), z3.IntVal(0))
        for nm, c in invariant(p, g, *dheld(p, o, g), g.N + 1, R):
            p.prove(c, nm)
        p.prove(zi(p.a(o, "count")) == zi(p.e.list_len(p.a(o, "_values"))), "count is the number held")
        p.eq(p.a(o, "reservoir_size"), Sym("int", g.cap), "the capacity stays")
    p.paths(one)


def permuted(p):
    """Sorting pairs puts them in another order."""
    def f(ref):
        e = p.e
        segs = e.norm_segs(e.obj(ref).segs)
        n = e.segs_len(segs)
        b = pairs(p, "sorted", n if isinstance(n, int) else n.t)
        e.assume(zi(e.agg([b], "w", second_is_w(p.g.w), "int")) == zi(e.agg(segs, "w", second_is_w(p.g.w), "int")))
        e.obj(ref).segs = [b]
        return True
    return f


class Moved(Invariant):
    """After k pairs the new list has k pairs, with the values of those k."""

    def __init__(self, p, g, base):
        Invariant.__init__(self)
        self.p, self.g, self.src = p, g, base

    def discover(self, e, s, cb):
        t = sorted({a for a, f in e.touched(s, cb) if isinstance(e.heap[a], HList)}, key=str)
        if len(t) != 1:
            raise Unsupported("the loop over the pairs changes %d lists" % len(t))
        self.addr = t[0]

    def havoc(self, e, k):
        e.heap[self.addr].segs = [pairs(self.p, "moved", zi(k))]

    def frame(self, e):
        return {(self.addr, None)}

    def before(self, e, k):
        e.note_split(self.src, k, None)

    def check(self, e, k):
        segs = e.heap[self.addr].segs
        f = second_is_w(self.g.w)
        e.note_cut(self.src, zi(k))
        done = e.sub_base(self.src, 0, zi(k))
        return [("as many pairs", zi(e.segs_len(segs)) == zi(k)),
                ("with the same values", zi(e.agg(segs, "w", f, "int")) == zi(e.agg([done], "w", f, "int")))]


@section("ExponentiallyDecayingSample.rescale")
def d_rescale(p):
    def one():
        o, g = decaying(p)
        held, n = dheld(p, o, g)
        p.e.invariants.append(lambda e, seg, base, src: Moved(p, g, g.V) if base.root is g.V else None)
        p.g = g
        p.e.sort_rule = permuted(p)
        p.no_raise(lambda: p.m(o, "rescale", p.float("now"), p.float("next_")))
        held2, n2 = dheld(p, o, g)
        p.prove(zi(n) == zi(n2), "rescaling changes how many values are held")
        p.prove(zi(held) == zi(held2), "rescaling keeps which values are held")
        p.prove(zi(p.a(o, "count")) == zi(n), "count stays")
        p.eq(p.a(o, "reservoir_size"), Sym("int", g.cap), "the capacity stays")
    p.paths(one)


@section("ExponentiallyDecayingSample.get_values and size")
def d_read(p):
    def one():
        o, g = decaying(p)
        r = p.no_raise(lambda: p.m(o, "get_values"))
        n = zi(p.e.list_len(p.a(o, "_values")))
        p.prove(zi(p.e.list_len(r)) == n, "returns as many values as are held")
        p.prove(zi(p.m(o, "size")) == n, "size() is that number")
        j = p.int("j").t
        p.assume(z3.And(j >= 0, j < n))
        got = p.e.list_get(r, Sym("int", j))
        p.prove(zr(got) == zr(p.e.list_get(p.a(o, "_values"), Sym("int", j))[1]), "in particular every value held, without its priority")
        p.prove(zi(p.e.list_len(p.a(o, "_values"))) == n, "and changes nothing")
    p.paths(one)
