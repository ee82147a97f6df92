"""The distinct counter: any hash tables, any number of hashes and buckets, any bucket times, any item."""
import z3
from pyded.core import Family, HEnv, HList, Ref, Sym, is_num, zb, zi, zr, zs
from pyded.ops import XOR
from pyded.proof import section
from pyded.seqs import Base, Invariant
from contracts.common import *

D_ = "txstatsd.metrics.distinctmetric:"
HASHER, COUNTER_, REPORTER = D_ + "SBoxHash", D_ + "SlidingDistinctCounter", D_ + "DistinctMetricReporter"
FUNCTIONS = ["SBoxHash.hash", "zeros", "SlidingDistinctCounter.__init__/add/distinct",
             "DistinctMetricReporter.__init__/count/count_1min/count_1hour/count_1day/process/update/flush"]
I_, R_, S_ = z3.IntSort(), z3.RealSort(), z3.StringSort()
HASH = z3.Function("hash", I_, S_, I_)          # the i-th hash of an item
ZEROS = z3.Function("zeros", I_, I_)
TIME = z3.Function("time", I_, I_, R_)          # the time in bucket b of hash i
ASSUMPTIONS = ["items are byte strings", "times are reals; 2 ** x never decreases as x increases, and int, division and multiplication by positive constants keep that (floating point rounding is monotone)"]


class Folded(Invariant):
    """After k characters the value is FOLD(k), a function of the table and of the characters so far, at most 32 bits long."""

    def __init__(self, p, table, fold):
        Invariant.__init__(self)
        self.p, self.table, self.fold = p, table, fold

    def discover(self, e, s, cb):
        self.chars = s
        now = {a: dict(o.attrs) for a, o in e.heap.items() if isinstance(o, HEnv)}
        self.touch = e.touched(s, cb)
        c = [(a, f) for a, f in self.touch if is_num(now.get(a, {}).get(f))]
        if len(c) != 1:
            raise Unsupported("the loop over the characters carries %d numbers" % len(c))
        self.var = c[0]

    def havoc(self, e, k):
        for a, f in self.touch:
            if isinstance(e.heap[a], HEnv) and (a, f) != self.var:
                e.heap[a].attrs.pop(f, None)
        e.heap[self.var[0]].attrs[self.var[1]] = Sym("int", self.fold(k))
        self.define(e, k)

    def define(self, e, k):
        c = z3.StrToCode(zs(e.elem(self.chars, k)))
        x = XOR(self.fold(k), zi(e.elem(self.table, c)))
        e.assume(z3.Implies(z3.And(k >= 0, k < zi(self.chars.n)), self.fold(k + 1) == (x * 3) % z3.IntVal(2 ** 32)))

    def frame(self, e):
        return set(self.touch)

    def check(self, e, k):
        v = zi(e.heap[self.var[0]].attrs[self.var[1]])
        return [("the value is a function of the table and the characters", v == self.fold(k)), ("it has at most 32 bits", z3.And(v >= 0, v < 2 ** 32))]


@section("SBoxHash.hash")
def the_hash(p):
    """The hash of an item is a function of the table and the item alone, a number of at most 32 bits."""
    def one():
        table = p.base("table", "int", n=z3.IntVal(256), facts=[lambda e, i, v: [zi(v) >= 0, zi(v) < 2 ** 32]])
        FOLD = z3.Function("fold", S_, I_, I_)
        h = p.instance(HASHER, {"table": p.listof(table)})
        data, other = p.str("data"), p.str("other")
        for d in (data, other):
            p.assume(FOLD(d.t, 0) == 0)
        p.e.invariants[:] = [lambda e, seg, base, src: Folded(p, table, lambda k: FOLD(zs(src), zi(k))) if isinstance(src, Sym) and src.kind == "str" else None]
        if p.e.choose(2):
            p.no_raise(lambda: p.m(h, "hash", other))
        r = p.no_raise(lambda: p.m(h, "hash", data))
        p.prove(zi(r) == FOLD(data.t, z3.Length(data.t)), "a function of the table and the item")
        p.prove(z3.And(zi(r) >= 0, zi(r) < 2 ** 32), "at most 32 bits")
        p.eq(p.a(h, "table"), p.listof(table), "the table stays as it is")
    p.paths(one)


@section("a new hash")
def new_hash(p):
    def one():
        def randint(e, a, k):
            x = e.fresh("int", "random")
            p.assume(z3.And(zi(a[0]) <= x.t, x.t <= zi(a[1])))
            return x
        p.external("random.randint", randint)
        h = p.no_raise(lambda: p.new(HASHER))
        t = p.e.concrete_items(p.a(h, "table"))
        p.decided(len(t) == 256, "an entry for every byte", "syntactic", repr(len(t)))
        p.prove(z3.And(*[z3.And(zi(x) >= 0, zi(x) < 2 ** 32) for x in t]), "of at most 32 bits")
    p.paths(one)


@section("zeros")
def the_zeros(p):
    """The number of trailing zeros (none for zero itself), for every number of at most 32 bits."""
    b = z3.BitVec("n", 32)
    p.prove(z3.Or(b == 0, *[b & (2 ** (r + 1) - 1) == 2 ** r for r in range(32)]), "a number is zero or has its last one at one of the 32 bits")

    def one():
        r = p.e.choose(33)
        n = 0
        if r < 32:
            m = p.int("m")
            p.assume(z3.And(m.t >= 0, m.t < 2 ** (31 - r)))
            n = Sym("int", m.t * 2 ** (r + 1) + 2 ** r)
        p.eq(p.no_raise(lambda: p.call(D_ + "zeros", n)), r % 32, "the number of trailing zeros")
    p.paths(one)


def a_counter(p, tag, n, m, times=None):
    """A counter in any state: n hashes of m buckets."""
    T = times or z3.Function(p.e.name("time_" + tag), I_, I_, R_)
    rows = Family("row", lambda ps: Base("row", m, lambda e, b: Sym("float", T(ps[0], zi(b))), scalar="float"))
    hashes = p.base("hashes", None, n=n, mk=lambda e, i: p.stub("hasher", {"hash": Builtin("hash", lambda e, a, k: Sym("int", HASH(zi(i), zs(a[0]))))}))
    buckets = p.base("buckets", None, n=n, mk=lambda e, i: p.listof(rows.get([zi(i)])), mutable=True)
    c = p.instance(COUNTER_, {"n_hashes": Sym("int", n), "n_buckets": Sym("int", m), "hashes": p.listof(hashes), "buckets": p.listof(buckets)})
    return c, T


def place(i, item, m):
    """The bucket of an item under hash i."""
    z = ZEROS(HASH(i, item))
    return z3.If(z < m, z, m - 1)


def zeros_contract(p):
    def f(e, fn, a, k):
        t = ZEROS(zi(a[0]))
        e.assume(t >= 0)
        return Sym("int", t)
    p.e.contracts[D_ + "zeros"] = f


@section("SlidingDistinctCounter.add")
def adding(p):
    """Recording an item puts the time into the item's bucket under every hash, and changes nothing else."""
    def one():
        n, m = p.int("n").t, p.int("m").t
        p.assume(z3.And(n >= 1, m >= 1))
        zeros_contract(p)
        c, T = a_counter(p, "was", n, m)
        when, item = p.float("when"), p.str("item")
        p.no_raise(lambda: p.m(c, "add", when, item))
        i, b = p.int("i"), p.int("b")
        p.assume(z3.And(i.t >= 0, i.t < n, b.t >= 0, b.t < m))
        got = p.e.list_get(p.e.list_get(p.a(c, "buckets"), i), b)
        p.prove(zr(got) == z3.If(b.t == place(i.t, zs(item), m), when.t, T(i.t, b.t)), "the time of every bucket")
        p.prove(zi(p.e.list_len(p.a(c, "buckets"))) == n, "as many hashes")
        p.prove(zi(p.e.list_len(p.e.list_get(p.a(c, "buckets"), i))) == m, "as many buckets")
    p.paths(one)


class Summed(Invariant):
    """After k hashes the total is SUM(k), where SUM(k + 1) is SUM(k) and the number of buckets of hash k that lie before the first
    one whose time is not after the start of the window."""

    def __init__(self, p, alive, m, tag):
        Invariant.__init__(self)
        self.p, self.alive, self.m = p, alive, m
        self.inside = False
        self.lead, self.sum = z3.Function("lead_" + tag, I_, I_), z3.Function("sum_" + tag, I_, I_)

    def discover(self, e, s, cb):
        now = {a: dict(o.attrs) for a, o in e.heap.items() if isinstance(o, HEnv)}
        self.inside = True
        self.touch = e.touched(s, cb)
        self.inside = False
        c = [(a, f) for a, f in self.touch if is_num(now.get(a, {}).get(f))]
        if len(c) != 1:
            raise Unsupported("the loop over the hashes carries %d numbers" % len(c))
        self.var = c[0]
        e.assume(self.sum(0) == 0)

    def havoc(self, e, k):
        for a, f in self.touch:
            if isinstance(e.heap[a], HEnv) and (a, f) != self.var:
                e.heap[a].attrs.pop(f, None)
        e.heap[self.var[0]].attrs[self.var[1]] = Sym("float", z3.ToReal(self.sum(k)))
        self.define(e, k)

    def define(self, e, k):
        n = self.lead(k)
        e.assume(self.sum(k + 1) == self.sum(k) + n)
        e.assume(z3.And(n >= 0, n <= self.m, z3.Implies(n < self.m, z3.Not(self.alive(k, n)))))
        self.k = k

    def instances(self, e, j):
        """Every bucket before the first is alive: at bucket j."""
        e.assume(z3.Implies(z3.And(j >= 0, j < self.lead(self.k)), self.alive(self.k, j)))

    def before(self, e, k):
        self.mark, self.inside = len(e.exits), True

    def after(self, e, k):
        n = self.lead(k)
        for base, m, cond, loops in e.exits[self.mark:]:
            if loops != tuple(e.loops):
                continue
            if m is not None:       # the loop was left at index m, and not before
                self.instances(e, m)
            e.assume(z3.Implies(z3.And(n >= 0, n < zi(base.n if m is None else m)), zb(cond(n))))

    def frame(self, e):
        return set(self.touch)

    def check(self, e, k):
        v = e.heap[self.var[0]].attrs[self.var[1]]
        return [("the total is the sum of the leading buckets", zr(v) == z3.ToReal(self.sum(k)))]


def estimate(p, tag, c, T, n, m, since):
    """The estimate, and the sum that it is a function of."""
    inv = Summed(p, lambda i, b: T(i, b) > (0 if since is None else zr(since)), m, tag)
    def find(e, seg, base, src):
        if not inv.inside and z3.simplify(zi(base.n)).eq(z3.simplify(n)):
            return inv
    p.e.invariants[:] = [find]
    r = p.no_raise(lambda: p.m(c, "distinct", *([] if since is None else [since])))
    return r, inv


@section("SlidingDistinctCounter.distinct")
def distinct(p):
    """The estimate is a function of which buckets were last hit inside the window, and never decreases when more were."""
    def one():
        n, m = p.int("n").t, p.int("m").t
        p.assume(z3.And(n >= 1, m >= 1))
        a, T = a_counter(p, "a", n, m)
        b, U = a_counter(p, "b", n, m)
        s, t = p.float("since"), p.float("since") if p.e.choose(2) else None
        x, left = estimate(p, "a", a, T, n, m, s)
        y, right = estimate(p, "b", b, U, n, m, t)
        p.assume(left.sum(n) <= right.sum(n))
        p.prove(zi(x) <= zi(y), "more leading buckets, no lower estimate")
    p.paths(one)


@section("more buckets hit")
def more(p):
    """If every bucket hit inside the one window was hit inside the other, each hash has at least as many leading buckets, and so the sum is no less."""
    lead, lead2 = (z3.Function(x, I_, I_) for x in ("lead", "lead2"))
    A = z3.Function("alive", I_, I_, z3.BoolSort())
    A2 = z3.Function("alive2", I_, I_, z3.BoolSort())
    S, S2 = z3.Function("sum", I_, I_), z3.Function("sum2", I_, I_)
    k, m = p.int("k").t, p.int("m").t
    p.assume(z3.And(k >= 0, m >= 1))
    for L, X in ((lead, A), (lead2, A2)):
        p.assume(z3.And(L(k) >= 0, L(k) <= m, z3.Implies(L(k) < m, z3.Not(X(k, L(k))))))
    # at bucket lead2(k): what is before the first window's lead is alive there, and so alive in the other
    p.assume(z3.Implies(z3.And(lead2(k) >= 0, lead2(k) < lead(k)), A(k, lead2(k))))
    p.assume(z3.Implies(A(k, lead2(k)), A2(k, lead2(k))))
    p.e.cover(p.section)
    p.prove(lead(k) <= lead2(k), "no fewer leading buckets")
    p.prove(z3.Implies(z3.And(S(k) <= S2(k), lead(k) <= lead2(k)), S(k) + lead(k) <= S2(k) + lead2(k)), "by induction, no lower sum")


LAST = z3.Function("last", S_, R_)              # when an item was last recorded (zero: never)


@section("what the buckets say")
def history(p):
    """Whatever was recorded, by a clock that starts after zero and never goes back: a bucket was hit inside a window exactly when an
    item of that bucket was last recorded inside it.  By induction over the history, at an arbitrary hash, bucket and item."""
    i, b, m = p.int("i").t, p.int("b").t, p.int("m").t
    now, when, since = (p.float(x).t for x in ("now", "when", "since"))
    x0, x = p.str("item").t, p.str("other").t
    wit = z3.Function("witness", I_, I_, S_)
    tau = lambda s: place(i, s, m)
    some = lambda T, last, w, c: z3.Or(T(i, c) == 0, z3.And(tau(w) == c, last(w) == T(i, c)))
    inv = lambda T, last, w, c, y, t: [last(y) <= T(i, tau(y)), some(T, last, w, c), T(i, c) <= t, T(i, c) >= 0, last(y) >= 0]
    zero = lambda *a: z3.RealVal(0)
    p.assume(z3.And(now > 0, when >= now, since >= 0, m >= 1))
    for c in inv(zero, zero, x, b, x, now):
        p.prove(c, "an empty counter")
    T1 = lambda h, c: z3.If(c == tau(x0), when, TIME(h, c))        # what add does
    last1 = lambda y: z3.If(y == x0, when, LAST(y))
    w1 = z3.If(b == tau(x0), x0, wit(i, b))
    for y in (x, x0, wit(i, b)):
        for c in (b, tau(x)):
            for f in inv(TIME, LAST, wit(i, c), c, y, now):
                p.assume(f)
    for c in inv(T1, last1, w1, b, x, when):
        p.prove(c, "is kept by recording an item")
    p.prove(z3.Implies(LAST(x) > since, TIME(i, tau(x)) > since), "an item recorded inside the window hits its bucket")
    p.prove(z3.Implies(TIME(i, b) > since, z3.And(tau(wit(i, b)) == b, LAST(wit(i, b)) > since)), "a bucket that was hit has such an item")
    p.prove(z3.Implies(LAST(x0) > 0, (T1(i, b) > 0) == (TIME(i, b) > 0)), "recording an item again hits no bucket that was not hit before")
    p.prove(z3.Implies(z3.And(TIME(i, b) > since, since < when), T1(i, b) > since), "no bucket that was hit inside a window is lost")
    p.e.cover(p.section)


EST = z3.Function("estimate", R_, I_)


def a_reporter(p, prefix=""):
    """A reporter as constructed, and its clock."""
    times = p.trace()

    def clock(e, a, k):
        t = e.fresh("float", "now")
        e.list_append(times, t)
        return t
    r = p.no_raise(lambda: p.new(REPORTER, p.str("name"), wall_time_func=Builtin("clock", clock), prefix=prefix))
    return r, times


@section("a new reporter")
def new_reporter(p):
    """A new counter has 32 hashes of its own random tables and 32 buckets each, none ever hit."""
    def one():
        made = p.trace()

        def hasher(e, cls, a, k):
            s = p.stub("hasher")
            e.list_append(made, s)
            return s
        p.e.contracts[HASHER] = hasher
        r, times = a_reporter(p)
        c = p.a(r, "counter")
        p.eq(p.a(c, "hashes"), made, "the hashes are new")
        n = p.e.list_len(made)
        rows = p.e.concrete_items(p.a(c, "buckets"))
        p.decided(len(rows) == n and n >= 1, "a row of buckets for every hash", "syntactic", "%r of %r" % (len(rows), n))
        p.decided(len(set(map(repr, rows))) == len(rows), "the rows are different lists", "syntactic", repr(rows)[:200])
        for x in rows:
            p.eq(x, p.list(*[0] * p.a(c, "n_buckets")), "no bucket was hit")
        p.eq(p.a(c, "n_hashes"), n, "the number of hashes")
        p.decided(p.a(c, "n_buckets") >= 1, "there are buckets", "syntactic", repr(p.a(c, "n_buckets")))
    p.paths(one)


def reporter_with(p, prefix):
    calls = p.trace()

    def distinct_(e, f, a, k):
        since = a[1] if len(a) > 1 else k.get("since", 0)
        return Sym("int", EST(zr(since)))
    p.e.contracts[COUNTER_ + ".distinct"] = distinct_
    p.e.contracts[COUNTER_ + ".add"] = lambda e, f, a, k: e.list_append(calls, tuple(a[1:]) + tuple(v for n, v in sorted(k.items(), reverse=True)))
    p.e.contracts[HASHER] = lambda e, cls, a, k: p.stub("hasher")
    r, times = a_reporter(p, prefix)
    return r, times, calls


@section("recording")
def recording(p):
    """An item is recorded once, at the moment the clock gives."""
    def one():
        r, times, calls = reporter_with(p, "")
        item = p.str("item")
        if p.e.choose(2):
            p.no_raise(lambda: p.m(r, "update", item))
        else:
            p.no_raise(lambda: p.m(r, "process", p.list(item, "d")))
        p.prove(zi(p.e.list_len(times)) == 1, "the clock is read once")
        p.eq(calls, p.list((p.e.list_get(times, 0), item)), "recorded once, at that time")
    p.paths(one)


@section("the estimates")
def estimates(p):
    """The estimates are those of all time and of the last minute, hour and day; a flush reports these four, at one moment."""
    def one():
        prefix = p.str("prefix") if p.e.choose(2) else ""
        r, times, calls = reporter_with(p, prefix)
        now = p.float("now")
        WINDOW = [(".count", None), (".count_1day", 86400), (".count_1hour", 3600), (".count_1min", 60)]
        of = lambda t, w: Sym("int", EST(z3.RealVal(0) if w is None else z3.simplify(zr(t) - w)))
        if p.e.choose(2):
            for n, w in WINDOW:
                p.eq(p.no_raise(lambda: p.m(r, n[1:], *([] if w is None else [now]))), of(now, w), "the estimate " + n[1:])
        else:
            ts = p.int("timestamp")
            got = p.no_raise(lambda: p.m(r, "flush", p.float("interval"), ts))
            p.prove(zi(p.e.list_len(times)) == 1, "the clock is read once")
            t = p.e.list_get(times, 0)
            p.eq(got, p.list(*[(cat(p, dotted(p, prefix, p.a(r, "name")), n), of(t, w), ts) for n, w in WINDOW]), "the four estimates are reported")
        p.eq(calls, p.list(), "nothing is recorded")
    p.paths(one)


@section("the order of the estimates")
def order(p):
    """From one day past the epoch the windows are nested, so what is hit inside the shorter is hit inside the longer."""
    now, t = p.float("now").t, p.float("time").t
    p.assume(now >= 86400)
    for a, b in ((now - 60, now - 3600), (now - 3600, now - 86400), (now - 86400, z3.RealVal(0))):
        p.prove(z3.Implies(t > a, t > b), "hit inside the shorter, hit inside the longer")
    p.e.cover(p.section)
