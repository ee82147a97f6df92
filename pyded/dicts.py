"""Dictionaries and sets."""
import z3

from .core import (ABSENT, Base, Comp, HDict, HList, PathEnd, Ref, SORT, Sym, Unsupported, is_str, lift, zi, zs, esc)
from .ops import And, Not, Or
from .seqs import AccDict, BaseElem, LazyIter, Rest, same_val, zt


class DictMixin(object):
    def sym_dict(self, name, mkval, kind="dict", keyfacts=(), n=None, valfacts=(), mutable=False, scalar=None,
                 keykind="str"):
        """A dict about which nothing is known: mkval(engine, i, key) -> the value of the entry at index i."""
        nm = self.name(name)
        if n is None:
            n = z3.Int(nm + "_n")
            self.assume(n >= 0)
        K = z3.Function(nm + "_key", z3.IntSort(), SORT[keykind])
        pos = z3.Function(nm + "_pos", SORT[keykind], z3.IntSort())
        has = z3.Function(nm + "_has", SORT[keykind], z3.BoolSort())
        facts = [lambda eng, i, v: [has(K(i)), pos(K(i)) == i]]
        keys = Base(nm + "_keys", n, lambda eng, i: Sym(keykind, K(i)), facts + list(keyfacts), scalar=keykind)
        vals = Base(nm + "_vals", n, lambda eng, i: mkval(eng, i, Sym(keykind, K(i))), valfacts, mutable=mutable,
                    scalar=scalar)
        keys.K, keys.pos, keys.has = K, pos, has
        return self.alloc(HDict([], Rest(keys, vals, pos, has), kind))

    def parallel_dict(self, name, other, mkval, mutable=False, scalar=None):
        """A dict with the same keys as another symbolic dict."""
        r = self.obj(other).rest
        vals = Base(self.name(name), r.keys.n, lambda eng, i: mkval(eng, i, eng.elem(r.keys, i)), mutable=mutable,
                    scalar=scalar)
        return self.alloc(HDict([], Rest(r.keys, vals, r.pos, r.has)))

    def check_hashable(self, k):
        if isinstance(k, Ref) and isinstance(self.obj(k), (HList, HDict)):
            self.throw("TypeError", "unhashable type")

    def dict_find(self, ref, k):
        """The entry of key k, or None.  Forks on which key it is."""
        o = self.obj(ref)
        self.check_hashable(k)
        if isinstance(o, AccDict):
            for x, v in reversed(o.acc_pairs):
                if same_val(x, k):
                    return [x, v]
            raise Unsupported("a loop reads a dict that it fills")
        if o.comps:
            return self.comp_find(ref, o, k)
        for e in o.entries:
            if self.branch(self.eq(k, e[0])):
                return None if e[1] is ABSENT else e
        if o.rest is None:
            return None
        r = o.rest
        idx = None
        if isinstance(k, Sym):
            for t, v in self.inst.get(r.keys.root.id, ()):
                if isinstance(v, Sym) and v.t.eq(k.t):
                    idx = t
        if idx is None:
            kt = zt(k)
            if kt.sort() != r.keys.K.range() if hasattr(r.keys, "K") else False:
                return None
            if not self.branch(r.has(kt)):
                o = self.obj(ref)
                o.entries.append([k, ABSENT, None, None])
                return None
            idx = z3.simplify(r.pos(kt))
            self.assume(z3.And(idx >= 0, idx < zi(r.keys.n)))
            kv = self.elem(r.keys, idx)
            self.assume(zt(kv) == kt)
            for x in r.excl:
                self.assume(idx != zi(x))
        o = self.obj(ref)
        v = self.elem(r.vals, idx)
        e = [k, v, idx, v]
        o.entries.append(e)
        o.rest = Rest(r.keys, r.vals, r.pos, r.has, r.excl + (idx,))
        return e

    def comp_find(self, ref, o, k):
        """Lookup in a dict filled by summarised loops: the last write of that key, if any."""
        for c in reversed(o.comps):
            e = self.comp_hit(c, k)
            if e is not None:
                return e
        o = self.obj(ref)
        comps, o.comps = o.comps, []
        try:
            return self.dict_find(ref, k)
        finally:
            self.obj(ref).comps = comps

    def comp_hit(self, c, k):
        """What a summarised loop wrote last for key k, or None.  The loop goes over the keys of a dict and writes under the key it is at
        (so at most one iteration writes k), or it is a single write."""
        if c.base.name.startswith("single") and c.base._elem is None:
            j = 0
        else:
            if not hasattr(c.base, "K"):
                return self.comp_witness(c, k)
            ix = z3.Int(self.name("ix"))
            for _, _, items in c.cases:
                for kv in items:
                    key = self.subst(kv[0], c.ix, ix)
                    if isinstance(key, BaseElem):
                        if key.b is not c.base or not z3.is_true(z3.simplify(zi(key.ix) == ix)):
                            raise Unsupported("lookup in a dict filled by a loop")
                    elif not (isinstance(key, Sym) and key.t.eq(c.base.K(ix))):
                        raise Unsupported("lookup in a dict filled by a loop")
            kt = zt(k)
            if kt.sort() != c.base.K.range() or not self.branch(c.base.has(kt)):
                return None
            j = z3.simplify(c.base.pos(kt))
            self.assume(z3.And(j >= 0, j < zi(c.base.n)))
            self.assume(zt(self.elem(c.base, j)) == kt)
            for e in getattr(c, "excl", ()):
                if self.branch(zi(e) == j):
                    return None
        for kv in reversed(self.comp_items(c, j)):
            if self.branch(self.eq(k, kv[0])):
                return [k, kv[1], None, None]
        return None

    def comp_witness(self, c, k):
        """The same where the keys are given by any term: a known index that writes k and after which no other does, or none at all."""
        def writes(i):
            """[(condition, items)] of the iteration at i, in order"""
            return [([self.sub(x, c.ix, i) for x in cs], [self.sub(x, c.ix, i) for x in as_], [self.subst(v, c.ix, i) for v in items])
                    for cs, as_, items in c.cases]

        def key_is(kv, i):
            key = kv[0]
            return self.eq(self.elem(key.b, key.ix) if isinstance(key, BaseElem) else key, k)

        def never(fact):
            """No iteration at an index with the given fact writes k."""
            j = z3.Int(self.name("j"))
            ok = [True]

            def one():
                self.assume(z3.And(j >= 0, j < zi(c.base.n), *([fact(j)] if fact is not None else [])))
                for e in getattr(c, "excl", ()):
                    self.assume(j != zi(e))
                self.elem(c.base, j)
                for kv in self.comp_items(c, j):
                    q = key_is(kv, j)
                    if q is False:
                        continue
                    r, _ = self.check([q] if q is not True else [], self.timeout_ms)
                    if q is True or r != z3.unsat:
                        ok[0] = False
            self.explore(one)
            return ok[0]
        if len(c.cases) == 1 and len(c.cases[0][2]) == 1:
            for t, _ in list(self.inst.get(c.base.root.id, ())):
                t = z3.simplify(t - zi(c.base.off))
                r, _ = self.check([z3.Not(z3.And(t >= 0, t < zi(c.base.n)))], self.timeout_ms)
                if r != z3.unsat:
                    continue
                (cs, as_, (kv,)), = writes(t)
                q = key_is(kv, t)
                r, _ = self.check([z3.Not(And(*(cs + [q])))] if And(*(cs + [q])) is not True else [z3.BoolVal(False)], self.timeout_ms)
                if r == z3.unsat and never(lambda j: j > t):
                    for a in as_:
                        self.assume(a)
                    v = kv[1]
                    return [k, self.elem(v.b, v.ix) if isinstance(v, BaseElem) else v, None, None]
        if never(None):
            return None
        raise Unsupported("lookup in a dict filled by a loop")

    def dict_get(self, ref, k, default=None):
        e = self.dict_find(ref, k)
        return default if e is None else e[1]

    def dict_set(self, ref, k, v):
        o = self.obj(ref)
        self.check_hashable(k)
        if isinstance(o, AccDict):
            o.acc_pairs.append((k, v))
            return
        if o.comps:
            ix = z3.Int(self.name("one"))
            o.comps = o.comps + [Comp(Base(self.name("single"), 1, None), ix, [([], [], [(k, v)])])]
            return
        for e in o.entries:
            if self.branch(self.eq(k, e[0])):
                if e[1] is ABSENT:          # insertion order
                    o.entries.remove(e)
                    o.entries.append([e[0], v, e[2] if len(e) > 2 else None, e[3] if len(e) > 3 else None])
                else:
                    e[1] = v
                return
        if o.rest is not None:
            e = self.dict_find(ref, k)
            o = self.obj(ref)
            if e is not None:
                e[1] = v
                return
            for x in o.entries:
                if x[0] is k:
                    x[1] = v
                    return
        o.entries.append([k, v, None, None])

    def dict_del(self, ref, k):
        e = self.dict_find(ref, k)
        if e is None:
            self.throw("KeyError", k)
        e[1] = ABSENT

    def dict_contains(self, ref, k):
        o = self.obj(ref)
        m = getattr(o, "members", None)
        if m and not isinstance(k, Ref) and not o.entries and o.rest is None and len(o.comps) == len(m[0]) and all(x is y for x, y in zip(o.comps, m[0])):
            return self.contains(self.alloc(HList(list(m[1]))), k)
        return self.dict_find(ref, k) is not None

    def live(self, o):
        return [e for e in o.entries if e[1] is not ABSENT]

    def dict_len(self, ref):
        o = self.obj(ref)
        if isinstance(o, AccDict) or o.comps:
            raise Unsupported("size of a dict filled by a loop")
        n = len(self.live(o))
        if o.rest is None:
            return n
        return lift("int", z3.simplify(zi(o.rest.keys.n) - len(o.rest.excl) + n))

    def dict_segs(self, ref, what):
        """The keys, values or items as list segments: the rest first, then the known entries."""
        o = self.obj(ref)
        if isinstance(o, AccDict):
            raise Unsupported("a loop reads a dict that it fills")
        if o.kind == "set" and len(o.comps) + bool(self.live(o)) + (o.rest is not None) > 1 and o.comps:
            return self.set_elements(o)
        pick = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: (k, v)}[what]
        segs = []
        if o.rest is not None:
            r = o.rest
            ix = z3.Int(self.name("kx"))
            ke = BaseElem(r.keys, ix)
            item = {"keys": ke, "values": BaseElem(r.vals, ix), "items": (ke, BaseElem(r.vals, ix))}[what]
            c = Comp(r.keys, ix, [([], [], [item])])
            c.excl = r.excl
            c.order, c.key_elem = "raw", ke
            self.order_use(r.keys, "raw", 1)
            segs.append(c)
        segs.append([pick(e[0], e[1]) for e in self.live(o)])
        for c in o.comps:
            self.check_distinct(o, c)
            n = Comp(c.base, c.ix, [(cs, as_, [pick(*kv) for kv in items]) for cs, as_, items in c.cases])
            n.excl = getattr(c, "excl", ())
            segs.append(n)
        return self.norm_segs(segs)

    def order_use(self, keys, how, n):
        """The order of a dict is arbitrary: what is proved holds for whatever order its entries come in, so for the sorted one, if the code
        looks at the dict in that order only.  Here the uses of each order are counted (order_conflicts)."""
        if not self.calldepth:
            return                  # a contract goes over the dict, in the order in question
        use = self.orders.setdefault(keys.root.name, {})
        use[how] = use.get(how, 0) + n

    def order_conflicts(self):
        return [k for k, use in self.orders.items() if sum(1 for n in use.values() if n) > 1]

    def sort_entries(self, segs, reverse):
        """Sorting all the keys, or all the items, of a dict; None when it is not that."""
        c = segs[0] if segs else None
        if len(segs) != 1 or not isinstance(c, Comp) or getattr(c, "order", None) is None:
            return None
        item = c.cases[0][2][0]
        key = item[0] if isinstance(item, tuple) else item
        if key is not c.key_elem:
            return None
        want = "reversed" if reverse else "sorted"
        if c.order == want:
            return segs
        n = Comp(c.base, c.ix, c.cases)
        n.excl, n.key_elem, n.order = c.excl, c.key_elem, want
        self.order_use(c.base, c.order, -1)
        self.order_use(c.base, want, 1)
        return [n]

    def set_elements(self, o):
        """The elements of a set filled by several loops, which may write an element more than once: each written element
        once, in an unknown order (how many there are, is unknown).  b.of: what was written."""
        b = self.raw_base("set_elements", "str")
        b.of = [self.norm_segs(list(self.dict_segs(self.alloc(HDict([], o.rest, "set")), "keys")) if o.rest is not None else []),
                [e[0] for e in self.live(o)]] + [Comp(c.base, c.ix, [(cs, as_, [k for k, _ in items]) for cs, as_, items in c.cases]) for c in o.comps]
        for c, n in zip(o.comps, b.of[2:]):
            n.excl = getattr(c, "excl", ())
        return [b]

    def check_distinct(self, o, c):
        """The iterations that filled a dict wrote different keys: no write hides another."""
        if self.live(o) or o.rest is not None or len(o.comps) > 1:
            raise Unsupported("iteration over a dict filled by several loops")
        if getattr(c, "distinct", False):
            return
        i, j = z3.Int(self.name("i")), z3.Int(self.name("j"))
        ok = [True]

        def one():
            self.assume(z3.And(i >= 0, i < zi(c.base.n), j >= 0, j < zi(c.base.n), i != j))
            for e in getattr(c, "excl", ()):
                self.assume(z3.And(i != zi(e), j != zi(e)))
            a = self.comp_items(c, i)
            b = self.comp_items(c, j)
            for x in a:
                for y in b:
                    q = self.eq(x[0], y[0])
                    r, _ = self.check([q] if q is not True and q is not False else [], self.timeout_ms)
                    if q is True or (q is not False and r != z3.unsat):
                        ok[0] = False
            for n, x in enumerate(a):
                for y in a[:n]:
                    q = self.eq(x[0], y[0])
                    r, _ = self.check([q] if q is not True and q is not False else [], self.timeout_ms)
                    if q is True or (q is not False and r != z3.unsat):
                        ok[0] = False
        self.explore(one)
        if not ok[0]:
            raise Unsupported("iteration over a dict in which a loop may write a key twice")
        c.distinct = True

    def dict_update(self, ref, other):
        if other is None:
            return
        if isinstance(other, Ref):
            o = self.obj(other)
            if isinstance(o, HDict):
                if o.rest is not None and not self.obj(ref).entries and self.obj(ref).rest is None and \
                        not self.obj(ref).comps and not isinstance(self.obj(ref), AccDict):
                    c = o.clone()
                    c.kind = self.obj(ref).kind
                    self.heap[ref.a] = c
                    return
                self.iterate_segs(self.dict_segs(other, "items"), lambda kv: self.dict_set(ref, kv[0], kv[1]))
                return
        self.iterate(other, lambda kv: self.dict_set_pair(ref, kv))

    def dict_set_pair(self, ref, kv):
        if isinstance(kv, tuple) and len(kv) == 2:
            self.dict_set(ref, kv[0], kv[1])
        else:
            k, v = self.unpack(kv, 2)
            self.dict_set(ref, k, v)

    def set_add(self, ref, v):
        self.dict_set(ref, v, True)

    def set_add_all(self, ref, v):
        if isinstance(v, Ref) and v != ref and isinstance(self.obj(v), HDict) and self.obj(v).kind == "set" and self.obj(v).comps and \
                not isinstance(self.obj(ref), AccDict) and not isinstance(self.obj(v), AccDict):
            o = self.obj(v)             # what loops wrote into the other set, they write into this one
            self.iterate_segs(self.dict_segs(self.alloc(HDict(list(o.entries), o.rest, "set")), "keys"), lambda x: self.set_add(ref, x))
            self.obj(ref).comps = self.obj(ref).comps + list(o.comps)
            return
        self.iterate(v, lambda x: self.set_add(ref, x))

    def dict_eq(self, a, b):
        x, y = self.obj(a), self.obj(b)
        if isinstance(x, AccDict) or isinstance(y, AccDict):
            raise Unsupported("comparison of a dict that a loop fills")
        conds = []
        if x.comps or y.comps:
            if len(x.comps) != len(y.comps) or self.live(x) or self.live(y) or x.rest or y.rest:
                # compare as sequences of writes
                sx, sy = self.writes(x), self.writes(y)
                r = self.segs_eq(sx, sy)
                if r is None:
                    raise Unsupported("equality of dicts filled by loops")
                return r
            for c, d in zip(x.comps, y.comps):
                e = self.comp_eq(self.in_key_order(c), self.in_key_order(d))
                if e is None:
                    raise Unsupported("equality of dicts filled by loops")
                conds.append(e)
            return And(*conds)
        if x.rest is None and y.rest is None:
            lx, ly = self.live(x), self.live(y)
            if len(lx) != len(ly):
                return False
            for e in lx:
                f = self.dict_find(b, e[0])
                if f is None:
                    return False
                conds.append(self.eq(e[1], f[1]))
            return And(*conds)
        if x.rest is not None and y.rest is not None and x.rest.keys is y.rest.keys:
            # same keys: bring the same ones out of the rest, then compare entry by entry
            for p, q in ((a, b), (b, a)):
                for e in list(self.obj(p).entries):
                    f = self.dict_find(q, e[0])
                    if (f is None) != (e[1] is ABSENT):
                        return False
                    if f is not None:
                        conds.append(self.eq(e[1], f[1]))
            x, y = self.obj(a), self.obj(b)
            if {z3.simplify(zi(e)).sexpr() for e in x.rest.excl} != {z3.simplify(zi(e)).sexpr() for e in y.rest.excl}:
                raise Unsupported("equality of symbolic dicts")
            ix = z3.Int(self.name("kx"))
            c1, c2 = (Comp(r.keys, ix, [([], [], [BaseElem(r.vals, ix)])]) for r in (x.rest, y.rest))
            c1.excl = c2.excl = x.rest.excl
            e = True if x.rest.vals is y.rest.vals else self.comp_eq(c1, c2)
            if e is None:
                raise Unsupported("equality of symbolic dicts")
            conds.append(e)
            return And(*conds)
        raise Unsupported("equality of symbolic dicts")

    def in_key_order(self, c):
        """The same writes; those of one iteration, when to different keys, sorted by key."""
        j = z3.Int("the_index")
        cases = []
        for cs, as_, items in c.cases:
            keys = [kv[0] for kv in items]
            plain = len(items) > 1 and all(isinstance(k, str) or isinstance(k, Sym) for k in keys)
            if plain:
                for n, a in enumerate(keys):
                    for b in keys[:n]:
                        q = self.eq(a, b)
                        if plain and q is not False:
                            plain = q is not True and self.check([q], self.timeout_ms)[0] == z3.unsat
            if plain:
                items = sorted(items, key=lambda kv: zt(kv[0]).sexpr() if isinstance(kv[0], str) else self.sub(kv[0].t, c.ix, j).sexpr())
            cases.append((cs, as_, items))
        n = Comp(c.base, c.ix, cases)
        n.excl = getattr(c, "excl", ())
        return n

    def writes(self, o):
        segs = [[(e[0], e[1]) for e in self.live(o)]]
        if o.rest is not None:
            raise Unsupported("equality of symbolic dicts")
        return self.norm_segs(segs + list(o.comps))
