"""The hash ring: any sorted ring, any nodes, any key.
The ring is a list of (position, node) in order; the set of its entries is { (P(node:i), node) : node of the ring, i < replicas }.
The owner of a key is the node of the cyclic successor of (P(key), None); the lemmas give stability from that."""
import z3
from pyded.core import HDict, HEnv, HList, PathEnd, Sym, lift, zi
from pyded.lib import to_list
from pyded.loader import Node
from pyded.proof import section
from pyded.seqs import Base, BreakEx, ContinueEx
from contracts.common import *

RING = "txstatsd.hashing:ConsistentHashRing"
CHC = "txstatsd.client:ConsistentHashingClient"
FUNCTIONS = ["ConsistentHashRing.__init__/compute_ring_position/add_node/remove_node/get_node/get_nodes",
             "ConsistentHashingClient.__init__/write/connect/disconnect"]
TRUSTED = ["bisect.insort puts one entry into a sorted list and keeps it sorted; bisect.bisect_left and bisect.bisect return the leftmost and rightmost "
           "place of an entry in a sorted list; list.sort sorts", "md5 and int(text, 16) are functions of their arguments",
           "a finite set that is not empty has a least element (a key has an owner)",
           "a list without repetitions has as many elements as the set of its elements"]
ASSUMPTIONS = ["nodes are totally ordered among each other and greater than None, as Python 2 orders numbers, strings and tuples of these",
               "at least one replica per node (the default is 1024)", "keys are ASCII strings"]
POSF = z3.Function("ring_position", z3.StringSort(), z3.IntSort())


def position(p):
    """compute_ring_position by its contract: a function of the key's text."""
    p.e.contracts[RING + ".compute_ring_position"] = lambda e, f, a, k: Sym("int", POSF(zs(a[1])))


def text(p, name):
    s = p.str(name)
    p.e.strspec[s.t.sexpr()] = {"ascii": True}
    return s


@section("compute_ring_position")
def compute(p):
    def one():
        r1, r2 = (p.new(RING, p.list(), p.int("replicas")) for _ in range(2))
        key, other = text(p, "key"), text(p, "other")
        x = p.no_raise(lambda: p.m(r1, "compute_ring_position", key))
        p.no_raise(lambda: p.m(r1, "compute_ring_position", other))
        p.eq(p.no_raise(lambda: p.m(r1, "compute_ring_position", key)), x, "the same key has the same position every time")
        p.eq(p.no_raise(lambda: p.m(r2, "compute_ring_position", key)), x, "on every ring")
    p.paths(one)


class Ring(object):
    """A ring in any state: n entries in order, the nodes of the ring exactly the nodes of the entries."""

    def __init__(self, p, kind="int", lo=0):
        self.p, e = p, p.e
        so = {"int": z3.IntSort(), "str": z3.StringSort()}[kind]
        self.pos, self.node = z3.Function("entry_pos", z3.IntSort(), z3.IntSort()), z3.Function("entry_node", z3.IntSort(), so)
        self.n = p.int("entries").t
        p.assume(self.n >= lo)
        self.kind = kind
        self.base = p.base("ring", None, n=self.n, mk=lambda e, i: (Sym("int", self.pos(i)), Sym(kind, self.node(i))))
        self.base.pairs = self.order
        self.names = e.sym_dict("nodes", lambda e, i, k: True, kind="set", keykind=kind)
        r = e.obj(self.names).rest
        self.has, self.members = r.has, r.keys
        self.rep = z3.Function("entry_of", so, z3.IntSort())
        self.base.facts.append(lambda e, i, v: [self.has(self.node(i))])
        self.members.facts.append(lambda e, i, v: self.known(v.t))
        self.replicas = p.int("replicas")
        p.assume(self.replicas.t >= 1)
        position(p)
        self.ref = p.instance(RING, {"ring": p.listof(self.base), "nodes": self.names, "replica_count": self.replicas})

    def lex(self, p, x, q, y):
        if self.kind == "str":
            return z3.Or(p < q, z3.And(p == q, z3.Or(x == y, x < y)))
        return z3.Or(p < q, z3.And(p == q, x <= y))

    def order(self, e, i, v, j, w):
        a = self.lex(v[0].t, v[1].t, w[0].t, w[1].t)
        b = self.lex(w[0].t, w[1].t, v[0].t, v[1].t)
        return [z3.Implies(i <= j, a), z3.Implies(j <= i, b)]

    def known(self, x):
        """A node of the ring has an entry."""
        return [z3.Implies(self.has(x), z3.And(self.rep(x) >= 0, self.rep(x) < self.n, self.node(self.rep(x)) == x))]

    def owner(self, key):
        """The index of the entry that owns the key: the first at or after the key's position, else the first of all."""
        p = self.p
        o, at = p.int("owner").t, POSF(zs(key))
        p.assume(z3.And(o >= 0, o < self.n))
        after = p.e.fresh("bool", "wraps").t
        p.assume(z3.If(after, o == 0, self.pos(o) >= at))
        self.base.facts.append(lambda e, i, v: [z3.If(after, self.pos(i) < at, z3.Implies(i < o, self.pos(i) < at))])
        for t, v in list(p.e.inst.get(self.base.id, ())):
            for f in self.base.facts[-1:]:
                for c in f(p.e, t, v):
                    p.assume(c)
        p.e.elem(self.base, o)
        return o

    def search(self, right=False):
        """bisect on the ring."""
        def f(e, a, k):
            ref, x = a[0], a[1]
            segs = e.norm_segs(e.obj(ref).segs)
            if len(a) != 2 or k or len(segs) != 1 or segs[0] is not self.base:
                raise Unsupported("bisect on something other than the ring")
            r = e.fresh("int", "bisect").t
            e.assume(z3.And(r >= 0, r <= self.n))

            def fact(e, i, v):
                at, x1 = x[0], x[1] if len(x) > 1 else None
                if isinstance(x1, Sym) and x1.kind == self.kind:
                    below = z3.And(self.lex(v[0].t, v[1].t, zi(at), x1.t), z3.Not(z3.And(v[0].t == zi(at), v[1].t == x1.t)))
                    upto = self.lex(v[0].t, v[1].t, zi(at), x1.t)
                elif x1 is None:            # below every node
                    below = upto = v[0].t < zi(at)
                else:
                    raise Unsupported("order of a node and %r" % (x1,))
                c = upto if right else below
                return [z3.If(i < r, c, z3.Not(c))]
            self.base.facts.append(fact)
            for t, v in list(e.inst.get(self.base.id, ())):
                for c in fact(e, t, v):
                    e.assume(c)
            # (the neighbours, for the facts to meet)
            if e.branch(r < self.n):
                e.elem(self.base, r)
            return Sym("int", r)
        return f

    def searchable(self):
        for n in ("bisect", "bisect_right", "bisect_left"):
            self.p.external("bisect." + n, self.search(n != "bisect_left"))

    def insertable(self):
        """Insertion in order: the ghost trace is what was put into the ring."""
        added = self.p.trace()
        ring = self.p.a(self.ref, "ring")

        def insort(e, a, k):
            if len(a) != 2 or k or a[0] != ring:
                raise Unsupported("insort into something other than the ring")
            e.list_append(added, a[1])
        for n in ("insort", "insort_left", "insort_right"):
            self.p.external("bisect." + n, insort)

        def sort(ref):
            """Sorting after appending is putting in order what was appended."""
            e = self.p.e
            segs = e.norm_segs(e.obj(ref).segs)
            if ref != ring or not segs or segs[0] is not self.base:
                return False
            e.obj(added).segs = e.norm_segs(list(e.obj(added).segs) + list(segs[1:]))
            e.obj(ref).segs = [self.base]
            return True
        self.p.e.sort_rule = sort
        return added


def entries(p, r, node):
    """What belongs in the ring for a node: a position for each replica."""
    w = p.trace()
    put = Builtin("put", lambda e, a, k: e.list_append(w, a[0]))
    def body(i):
        key = cat(p, p.e.to_str(node), ":", p.e.to_str(i))
        p.call(put, (Sym("int", POSF(zs(key))), node))
    p.e.iterate(p.e.call(p.e.builtins["range"], [r.replicas], {}), body)
    return w


@section("add_node")
def add_(p):
    def one():
        r = Ring(p, "str")
        node = text(p, "node")
        want = entries(p, r, node)
        added = r.insertable()
        ring = p.a(r.ref, "ring")
        was = p.e.fresh("str", "any")
        had = r.has(was.t)
        p.no_raise(lambda: p.m(r.ref, "add_node", node))
        p.eq(added, want, "one entry is put in for each replica, at the position of node:replica")
        p.same(p.a(r.ref, "ring"), ring, "into the same ring")
        p.eq(ring, p.listof(r.base), "whose other entries stay as they are")
        now = p.e.contains(p.a(r.ref, "nodes"), was)
        p.prove(zb_(now) == z3.Or(had, was.t == node.t), "the node, and no other, joins the nodes of the ring")
        p.eq(p.a(r.ref, "replica_count"), r.replicas, "the number of replicas stays")
    p.paths(one)


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


@section("remove_node")
def remove(p):
    def one():
        r = Ring(p, ["str", "int"][p.e.choose(2)])
        node = p.e.fresh(r.kind, "node")
        want = p.trace()

        def keep(v):
            if not p.e.branch(p.e.eq(v[1], node)):
                p.e.list_append(want, v)
        p.e.iterate(p.listof(r.base), keep)
        was = p.e.fresh(r.kind, "any")
        had = r.has(was.t)
        p.no_raise(lambda: p.m(r.ref, "remove_node", node))
        if p.e.choose(2):
            p.eq(p.a(r.ref, "ring"), want, "exactly the node's entries leave the ring, the others keep their order")
            return
        now = p.e.contains(p.a(r.ref, "nodes"), was)
        p.prove(zb_(now) == z3.And(had, was.t != node.t), "the node, and no other, leaves the nodes of the ring")
        p.eq(p.a(r.ref, "replica_count"), r.replicas, "the number of replicas stays")
    p.paths(one)


@section("__init__")
def init(p):
    def one():
        got = p.trace()

        def added(e, f, a, k):
            ok = e.list_len(p.a(a[0], "ring")) == 0 and e.dict_len(p.a(a[0], "nodes")) == 0
            e.list_append(got, (a[1], ok, p.a(a[0], "replica_count")))
        p.e.contracts[RING + ".add_node"] = added
        b = p.base("nodes", "str")
        given = [()  , (p.int("replicas"),)][p.e.choose(2)]
        r = p.no_raise(lambda: p.new(RING, p.listof(b), *given))
        want = p.trace()
        n = given[0] if given else p.a(r, "replica_count")
        p.e.iterate(p.listof(b), lambda v: p.e.list_append(want, (v, True, n)))
        p.eq(got, want, "each node given is added once to a ring that starts empty")
        if not given:
            p.prove(zi(n) >= 1, "a ring has replicas unless told otherwise")
        r2 = p.no_raise(lambda: p.new(RING, p.list()))
        p.prove(z3.BoolVal(p.a(r2, "ring") != p.a(r, "ring") and p.a(r2, "nodes") != p.a(r, "nodes")), "rings do not share their state")
    p.paths(one)


@section("get_node")
def get(p):
    def one():
        r = Ring(p, lo=1)
        r.searchable()
        key = text(p, "key")
        o = r.owner(key)
        v = p.no_raise(lambda: p.m(r.ref, "get_node", key))
        if p.e.choose(2):
            p.eq(v, Sym(r.kind, r.node(o)), "the owner is the node of the first entry at or after the key's position, else of the first of all")
            return
        p.eq(p.a(r.ref, "ring"), p.listof(r.base), "looking it up changes nothing")
        p.eq(p.a(r.ref, "nodes"), r.names, "looking it up changes nothing")
    p.paths(one)


class Walk(object):
    """The loop of get_nodes (a while loop with a place in the ring, or a for loop over the entries from the owner's on).  Ghost: t, the entries visited from the owner o on, around the ring; the list so far has each of their
    nodes once.  Variant: the entries not visited, n - t."""

    def __init__(self, p, r, o):
        self.p, self.r, self.o = p, r, o
        self.state = 0

    def variables(self, eng, s, fr):
        env = eng.obj(fr.env).attrs
        lists = [k for k, v in env.items() if isinstance(v, Ref) and isinstance(eng.obj(v), HList) and v != eng.getattr_(self.r.ref, "ring")]
        return env, lists

    def rule(self, eng, s, fr):
        if self.state:
            return None
        self.state = 1
        p, r, o, n = self.p, self.r, self.o, self.r.n
        turns = None
        if s.t == "For":
            turns = []
            for x in eng.norm_segs(eng.obj(to_list(eng, eng.ev(s.iter, fr))).segs):
                if not isinstance(x, (Base, list)):
                    raise Unsupported("the loop of get_nodes goes over %r" % (x,))
                turns.append((x, zi(x.n) if isinstance(x, Base) else z3.IntVal(len(x))))
            total = z3.simplify(sum([k for _, k in turns], z3.IntVal(0)))
        env, lists = self.variables(eng, s, fr)
        lists = [k for k in lists if eng.list_len(env[k]) == 0]
        if len(lists) != 1:
            raise Unsupported("the loop of get_nodes fills %d lists" % len(lists))
        L = env[lists[0]]
        start = dict(env)
        heap = {a: (x.clone() if hasattr(x, "clone") else x) for a, x in eng.heap.items()}
        # which variable is the place in the ring: it starts at the owner's entry
        stored = stores(s.body) if turns is not None else None
        ints = [k for k, v in env.items() if (stored is None or k in stored) and ( isinstance(v, Sym) and v.kind == "int" or isinstance(v, int) and not isinstance(v, bool))]
        steps = [k for k in ints if p.valid(zi(env[k]) == o)]
        if len(steps) != 1 and (turns is None or steps):
            raise Unsupported("the loop of get_nodes starts at %d places" % len(steps))
        ix = steps[0] if steps else None
        if ix is not None:
            p.prove(zi(env[ix]) == o, "the listing starts at the owner's entry")
        t, m = p.int("visited").t, p.int("listed").t
        p.assume(z3.And(t >= 0, t <= n, m >= 0))
        cur = lambda t: z3.If(o + t < n, o + t, o + t - n)
        seen = lambda j, t: z3.And(j >= 0, j < n, z3.If(j >= o, j - o < t, j - o + n < t))
        so = r.node.range()
        inL, at, elems = (z3.Function(x, *y) for x, y in [("listed_", (so, z3.BoolSort())), ("listed_at", (so, z3.IntSort())), ("listed_node", (z3.IntSort(), so))])

        def facts(e, i, v):
            return [inL(elems(i)), at(elems(i)) == i, r.has(elems(i)), z3.Implies(i == 0, elems(i) == r.node(o))] + r.known(elems(i))
        b = p.base("listed", None, n=m, mk=lambda e, i: Sym(r.kind, elems(i)), facts=[facts])
        b.scalar = r.kind

        def member(x):
            """x in the list, by its value."""
            return z3.And(z3.Implies(inL(x), z3.And(at(x) >= 0, at(x) < m, elems(at(x)) == x)))

        def contains(e, x):
            if not (isinstance(x, Sym) and x.kind == r.kind):
                raise Unsupported("membership of %r" % (x,))
            e.assume(member(x.t))
            return inL(x.t)
        b.contains = contains
        self.inL, self.member, self.m, self.elems = inL, member, m, elems
        r.base.facts.append(lambda e, j, v: [z3.Implies(seen(j, t), inL(r.node(j)))])
        for j, v in list(eng.inst.get(r.base.id, ())):
            p.assume(z3.Implies(seen(j, t), inL(r.node(j))))
        p.assume(z3.And(z3.Implies(t == 0, m == 0), z3.Implies(t > 0, m >= 1)))
        # cardinality (lemma "finite sets"): the list is among the nodes, so it is not longer; if some node is missing it is shorter
        nn = eng.dict_len(r.names)
        p.assume(m <= zi(nn))
        missing = z3.Const("missing_node", so)
        p.assume(z3.Implies(m < zi(nn), z3.And(r.has(missing), z3.Not(inL(missing)))))
        p.assume(z3.And(*r.known(missing)))
        if eng.branch(m < zi(nn)):
            eng.elem(r.base, r.rep(missing))
        self.full = lambda x: z3.Implies(z3.And(m >= zi(nn), r.has(x)), inL(x))     # (the other half of the lemma)
        eng.heap[L.a].segs = [b]
        if turns is not None:
            p.assume(t <= total)
        if ix is not None:
            env[ix] = Sym("int", z3.simplify(cur(t)))
        others = {k: v for k, v in env.items() if k not in (ix, lists[0])}
        if not eng.branch(eng.cond(s.test, fr) if turns is None else t < total):
            eng.exec_block(s.orelse, fr)
            return True
        p.prove(t < n, "the loop ends: there is an entry not yet visited")
        token = object()
        left = False
        fr.loops.append(token)
        if turns is not None:
            turn = t
            for x, k in turns:
                if eng.branch(turn < k):
                    turn = z3.simplify(turn)
                    eng.assign(s.target, eng.elem(x, turn) if isinstance(x, Base) else eng.list_get(p.list(*x), Sym("int", turn)), fr)
                    break
                turn = turn - k
        try:
            eng.exec_block(s.body, fr)
        except ContinueEx as x:
            if x.token is not token:
                raise
        except BreakEx as x:
            if x.token is not token:
                raise
            left = True
        fr.loops.pop()
        env = eng.obj(fr.env).attrs
        x = r.node(cur(t))
        p.assume(member(x))
        segs = eng.norm_segs(eng.obj(L).segs)
        p.prove(z3.BoolVal(env[lists[0]] == L and len(segs) >= 1 and segs[0] is b and all(isinstance(y, list) for y in segs[1:])), "what was listed stays listed, in order")
        new = [y for q in segs[1:] for y in q]
        p.prove(z3.BoolVal(len(new) <= 1), "at most one node is listed per step")
        if new:
            y = zi(new[0]) if r.kind == "int" else new[0].t
            p.prove(z3.And(y == x, z3.Not(inL(y))), "a node is listed when its first entry is met, and once")
            p.prove(z3.Implies(m == 0, y == r.node(o)), "the first listed is the owner")
        else:
            p.prove(inL(x), "every node met is listed")
        if left:        # (the other half of the lemma, for the list as it is now)
            ys = [zi(y) if r.kind == "int" else y.t for y in new]
            self.full = lambda x: z3.Implies(z3.And(m + len(new) >= zi(nn), r.has(x)), z3.Or(inL(x), *[x == y for y in ys]))
            return True
        # preserved, with t + 1
        if ix is not None:
            p.prove(zi(env[ix]) == cur(t + 1) if not z3.is_true(z3.simplify(t + 1 == n)) else True, "the next entry comes next, around the ring") \
                if not eng.branch(t + 1 == n) else p.prove(zi(env[ix]) == o, "after the last entry the walk is back at the owner's")
        # anything else carried from one turn to the next would be out of this invariant
        for a, was in heap.items():
            now = eng.heap.get(a)
            if a in (L.a, fr.env.a):
                continue
            if isinstance(was, (HInst, HEnv)):
                same = set(was.attrs) == set(now.attrs) and all(was.attrs[k] is now.attrs[k] or (isinstance(was.attrs[k], Ref) and was.attrs[k] == now.attrs[k]) for k in was.attrs)
            elif isinstance(was, HList):
                same = len(was.segs) == len(now.segs) and all(u is v or (isinstance(u, list) and isinstance(v, list) and len(u) == len(v)) for u, v in zip(was.segs, now.segs))
            elif isinstance(was, HDict):
                same = len(was.entries) == len(now.entries) and len(was.comps) == len(now.comps)
            else:
                same = True
            if not same:
                raise Unsupported("the loop of get_nodes changes something else")
        for k, v in others.items():
            u = env.get(k)
            if not (u is v or isinstance(u, Ref) and u == v) and k in self.read_first(s):
                raise Unsupported("the loop of get_nodes carries %s" % k)
        raise PathEnd()

    def read_first(self, s):
        """Names that the body may read before it writes them (all that it reads, unless the body is plainly sequential)."""
        reads, written = set(), set()
        if s.t == "For":
            written |= {x.id for x in targets(s.target)}
        else:
            reads |= loads(s.test)
        for st in s.body:
            reads |= loads(st) - written
            if st.t == "Assign":
                written |= stores(st.targets)
        return reads


def walk(n):
    if isinstance(n, (list, tuple)):
        for x in n:
            for y in walk(x):
                yield y
    elif isinstance(n, Node):
        yield n
        for v in n.__dict__.values():
            for y in walk(v):
                yield y


def targets(n):
    if isinstance(n, (list, tuple)):
        return [y for x in n for y in targets(x)]
    return [n] if n.t == "Name" else targets(n.elts) if n.t in ("Tuple", "List") else []


def stored(n):
    return [y for x in walk(n) if x.t in ("Assign", "AugAssign", "For") for y in targets(x.targets if x.t == "Assign" else x.target)]


def stores(n):
    return {x.id for x in stored(n)}


def loads(n):
    plain = [x for st in walk(n) if st.t in ("Assign", "For") for x in targets(st.targets if st.t == "Assign" else st.target)]
    return {x.id for x in walk(n) if x.t == "Name" and not any(x is y for y in plain)}


@section("get_nodes")
def listing(p):
    def one():
        r = Ring(p, lo=1)
        r.searchable()
        key = text(p, "key")
        o = r.owner(key)
        w = Walk(p, r, o)
        p.e.while_rules[RING.split(":")[1] + ".get_nodes"] = p.e.while_rules[RING + ".get_nodes"] = w.rule
        p.e.for_rules[RING + ".get_nodes"] = w.rule
        got = p.no_raise(lambda: p.m(r.ref, "get_nodes", key))
        if not w.state:
            raise Unsupported("get_nodes without its loop")
        nn = p.e.dict_len(r.names)
        p.assume(z3.Implies(r.has(r.node(o)), z3.And(r.members.pos(r.node(o)) >= 0, r.members.pos(r.node(o)) < zi(nn))))     # (a member has a place)
        p.prove(zi(nn) >= 1, "a ring with entries has nodes")
        what = p.e.choose(5)
        if what == 0:
            p.eq(p.e.list_len(got), nn, "as many nodes are listed as there are")
        elif what == 1:
            x = p.e.fresh(r.kind, "any_node")
            p.assume(r.has(x.t))
            p.assume(w.full(x.t))
            p.prove(zb_(p.e.list_contains(got, x)), "every node of the ring is listed")
        elif what == 2:
            i, j = p.int("i"), p.int("j")
            p.assume(z3.And(i.t >= 0, i.t < j.t, j.t < zi(p.e.list_len(got))))
            a, b = p.e.list_get(got, i), p.e.list_get(got, j)
            p.prove(z3.Not(zb_(p.e.eq(a, b))), "none is listed twice")
            p.prove(z3.And(r.has(a.t), r.has(b.t)), "only nodes of the ring are listed")
        elif what == 3:
            p.eq(p.e.list_get(got, 0), Sym(r.kind, r.node(o)), "the list begins with the owner")
        else:
            p.eq(p.a(r.ref, "ring"), p.listof(r.base), "listing changes nothing")
            p.eq(p.a(r.ref, "nodes"), r.names, "listing changes nothing")
    p.paths(one)


@section("lemma: entries of a ring")
def lemma_entries(p):
    """What add_node and remove_node do to the set of entries keeps it { (P(node, i), node) : node in N, i < R }."""
    Node = z3.DeclareSort("Node")
    I, B = z3.IntSort(), z3.BoolSort()
    P = z3.Function("P", Node, I, I)
    N, S = z3.Function("N", Node, B), z3.Function("S", I, Node, B)
    x, y = z3.Consts("x y", Node)
    i, q, R = z3.Ints("i q R")
    ent = lambda S, N: z3.ForAll([q, y], S(q, y) == z3.And(N(y), z3.Exists([i], z3.And(0 <= i, i < R, P(y, i) == q))))
    lemma(p, [ent(S, N)], ent(lambda q, y: z3.Or(S(q, y), z3.And(y == x, z3.Exists([i], z3.And(0 <= i, i < R, P(x, i) == q)))),
                               lambda y: z3.Or(N(y), y == x)), "adding a node")
    lemma(p, [ent(S, N)], ent(lambda q, y: z3.And(S(q, y), y != x), lambda y: z3.And(N(y), y != x)), "removing a node")
    lemma(p, [R >= 1, ent(S, N), N(x)], S(P(x, 0), x), "a node of the ring has an entry")
    lemma(p, [ent(S, N), S(q, x)], N(x), "an entry's node is a node of the ring")
    S2 = z3.Function("S2", I, Node, B)
    lemma(p, [ent(S, N), ent(S2, N)], z3.ForAll([q, y], S(q, y) == S2(q, y)), "the entries depend on the set of nodes only, not on the order of additions")


@section("lemma: owners")
def lemma_owner(p):
    Node = z3.DeclareSort("Node")
    I, B = z3.IntSort(), z3.BoolSort()
    le = z3.Function("le", Node, Node, B)
    x, y, z, a, b, new = z3.Consts("x y z a b new", Node)
    q, u, v, w, k = z3.Ints("q u v w k")
    order = [z3.ForAll([x], le(x, x)), z3.ForAll([x, y], z3.Implies(z3.And(le(x, y), le(y, x)), x == y)), z3.ForAll([x, y], z3.Or(le(x, y), le(y, x))),
             z3.ForAll([x, y, z], z3.Implies(z3.And(le(x, y), le(y, z)), le(x, z)))]
    lex = lambda q, x, u, y: z3.Or(q < u, z3.And(q == u, le(x, y)))
    S = z3.Function("S", I, Node, B)

    def succ(S, q, x):
        """(q, x) is the first entry of S at or after position k, else the first of all."""
        return z3.And(S(q, x), z3.If(q >= k, z3.ForAll([u, y], z3.Implies(z3.And(S(u, y), u >= k), lex(q, x, u, y))),
                                     z3.ForAll([u, y], z3.Implies(S(u, y), z3.And(u < k, lex(q, x, u, y))))))
    lemma(p, order + [succ(S, q, a), succ(S, w, b)], a == b, "one owner")
    less = lambda u, y: z3.And(S(u, y), y != z)
    lemma(p, order + [succ(S, q, a), succ(less, w, b), a != z], a == b, "removing a node moves no key that it does not own")
    E = z3.Function("E", I, B)
    more = lambda u, y: z3.Or(S(u, y), z3.And(y == new, E(u)))
    lemma(p, order + [succ(S, q, a), succ(more, w, b)], z3.Or(b == a, b == new), "adding a node moves keys only to it")
    # the index of get_node's contract is that entry
    pos, node, n, o = z3.Function("pos", I, I), z3.Function("node", I, Node), z3.Int("n"), z3.Int("o")
    j, i = z3.Ints("j i")
    ring = [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), lex(pos(i), node(i), pos(j), node(j)))),
            z3.ForAll([u, y], S(u, y) == z3.Exists([j], z3.And(0 <= j, j < n, pos(j) == u, node(j) == y)))]
    first = z3.And(0 <= o, o < n, z3.Or(z3.And(pos(o) >= k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < o), pos(j) < k))),
                                        z3.And(o == 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), pos(j) < k)))))
    lemma(p, order + ring + [first], succ(S, pos(o), node(o)), "the entry get_node takes is the first at or after the key's position")


@section("lemma: finite sets")
def lemma_sets(p):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    for name, kind in [("a part as large as the whole is the whole", 0), ("a part is not larger than the whole", 1), ("one more element makes one more", 2)]:
        s = cvc5.Solver(tm) if tm else cvc5.Solver()
        m = tm or s
        s.setLogic("ALL")
        s.setOption("sets-exp", "true")
        s.setOption("tlimit", "20000")
        st = m.mkSetSort(m.getIntegerSort())
        A, Bs, x = m.mkConst(st, "A"), m.mkConst(st, "B"), m.mkConst(m.getIntegerSort(), "x")
        K = cvc5.Kind
        card = lambda t: m.mkTerm(K.SET_CARD, t)
        s.assertFormula(m.mkTerm(K.SET_SUBSET, A, Bs))
        if kind == 0:
            s.assertFormula(m.mkTerm(K.GEQ, card(A), card(Bs)))
            s.assertFormula(m.mkTerm(K.NOT, m.mkTerm(K.EQUAL, A, Bs)))
        elif kind == 1:
            s.assertFormula(m.mkTerm(K.GT, card(A), card(Bs)))
        else:
            s.assertFormula(m.mkTerm(K.NOT, m.mkTerm(K.SET_MEMBER, x, A)))
            more = m.mkTerm(K.SET_UNION, A, m.mkTerm(K.SET_SINGLETON, x))
            s.assertFormula(m.mkTerm(K.NOT, m.mkTerm(K.EQUAL, card(more), m.mkTerm(K.ADD, card(A), m.mkInteger(1)))))
        r = s.checkSat()
        p.decided(r.isUnsat(), name, "cvc5", str(r))
    p.e.cover(p.section)


def lemma(p, given, then, name):
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*given)
    if s.check() == z3.unsat:
        return p.undischarged(name, "the lemma's premises contradict each other")
    s.add(z3.Not(then))
    r = s.check()
    p.decided(r == z3.unsat, name, "z3", str(r))
    p.e.cover(p.section)


@section("ConsistentHashingClient")
def chc(p):
    def one():
        sent, asked, done = p.trace(), p.trace(), p.trace()
        made = p.trace()

        def ring_init(e, cls, a, k):
            e.list_append(made, tuple(a))
            return ringstub
        node = p.stub("node", {"write": p.recorder(sent)})
        b = p.base("clients", None, mk=lambda e, i: client(i))
        cl = z3.Function("client", z3.IntSort(), z3.IntSort())

        def client(i):
            c = Sym("int", cl(i))
            return p.stub("client", {"connect": Builtin("connect", lambda e, a, k: e.list_append(done, ("connect", c))),
                                     "disconnect": Builtin("disconnect", lambda e, a, k: e.list_append(done, ("disconnect", c)))})
        ringstub = p.stub("ring", {"get_node": Builtin("get_node", lambda e, a, k: (e.list_append(asked, a[0]), node)[1]), "nodes": p.listof(b)})
        p.e.contracts[RING] = ring_init
        clients = p.listof(p.base("given", "obj"))
        c = p.no_raise(lambda: p.new(CHC, clients))
        p.eq(made, p.list((clients,)), "the clients are the nodes of a ring")
        what = p.e.choose(3)
        if what == 0:
            name, rest = text(p, "name"), text(p, "rest")
            p.e.strspec[name.t.sexpr()] = {"ascii": True, "without": ":"}
            data = cat(p, name, ":", rest)
            p.no_raise(lambda: p.m(c, "write", data))
            p.eq(asked, p.list(name), "the key is the metric's name, all that stands before the first colon")
            p.eq(sent, p.list((data,)), "its owner, and no other client, is given the message once, unchanged")
            p.eq(done, p.list(), "and nothing else")
            return
        op = ["connect", "disconnect"][what - 1]
        p.no_raise(lambda: p.m(c, op))
        want = p.trace()
        p.e.iterate(p.base("idx", None, n=b.n, mk=lambda e, i: Sym("int", cl(i))) if False else p.listof(p.base("idx", None, n=b.n, mk=lambda e, i: (op, Sym("int", cl(i))))),
                    lambda v: p.e.list_append(want, v))
        p.eq(done, want, "every client is told to %s, once" % op)
    p.paths(one)
