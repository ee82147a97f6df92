"""Sequences, dictionaries and loops: exact summaries of loops whose iterations are independent, and the inductive rule
for the others."""
from fractions import Fraction

import z3

from .core import (ABSENT, Base, Comp, Family, HDict, HEnv, HGen, HInst, HIter, HList, NonFin, PathEnd, Poison, Ref, SORT, Stub,
                   Sym, Unsupported, free_consts, is_float, is_int, is_num, is_str, lift, zi, zr, zs)
from .ops import And, Not, Or, obj_term


class BreakEx(Exception):
    def __init__(self, token):
        self.token = token


class ContinueEx(Exception):
    def __init__(self, token):
        self.token = token


class ReturnEx(Exception):
    def __init__(self, frame, value):
        self.frame, self.value = frame, value


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class ConsumerExc(Exception):
    """An exception raised by the consumer of a generator, on its way through the generator's frames."""

    def __init__(self, exc):
        self.exc = exc


class TObj(object):
    """Template of a heap object created in a loop body."""

    def __init__(self, kind, data):
        self.kind, self.data = kind, data


class Rest(object):
    """The symbolic part of a dict: keys.elem(i) -> vals.elem(i) for 0 <= i < n, i not in excl."""

    def __init__(self, keys, vals, pos, has, excl=()):
        self.keys, self.vals, self.pos, self.has, self.excl = keys, vals, pos, has, tuple(excl)

    def __repr__(self):
        return "<rest %s/%s-%s>" % (self.keys, self.vals, self.excl)


class AccList(Base):
    pass


class AccDict(HDict):
    """A dict being filled by the iterations of a summarised loop: reads are loop-carried, writes are recorded."""

    def __init__(self, kind, pairs=()):
        HDict.__init__(self, [], None, kind)
        self.acc_pairs = list(pairs)

    def clone(self):
        return AccDict(self.kind, self.acc_pairs)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (int, str, Fraction, Ref, bool)):
        return a == b
    return False


def same_seg(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return a is b


def same_hobj(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (HInst, HEnv)):
        return False    # compared field by field
    if isinstance(a, HList):
        return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, AccDict):
        return len(a.acc_pairs) == len(b.acc_pairs)
    if isinstance(a, HDict):
        return (len(a.entries) == len(b.entries) and all(same_val(x[0], y[0]) and same_val(x[1], y[1])
                                                         for x, y in zip(a.entries, b.entries))
                and a.rest is b.rest and len(a.comps) == len(b.comps) and all(x is y for x, y in zip(a.comps, b.comps)))
    if isinstance(a, HIter):
        return a.pos == b.pos
    if isinstance(a, HGen):
        return a.control == b.control and a.done == b.done
    return False


class SeqMixin(object):
    # bases ---------------------------------------------------------------------------------------------------------
    def raw_base(self, name, kind, n=None, facts=(), mk=None, mutable=False, lo=0):
        """A fresh symbolic sequence.  kind: scalar kind of its elements, or None with mk(engine, i) given.  Inside a
        loop body it is a function of the loop's index."""
        nm = self.name(name)
        loops = list(self.loops)
        ints = [z3.IntSort()] * len(loops)
        if n is None:
            N = z3.Function(nm + "_len", *(ints + [z3.IntSort()])) if loops else None
            n = N(*loops) if loops else z3.Int(nm + "_len")
            self.assume(n >= lo)
        if mk is not None or not loops:
            if mk is None:
                f = z3.Function(nm, z3.IntSort(), SORT[kind])
                mk = lambda eng, i, f=f, kind=kind: Sym(kind, f(i))
            if not loops:
                return Base(nm, n, mk, facts, scalar=kind, mutable=mutable)
            fam = Family(nm, lambda ps: Base(nm, subst_all(n, loops, ps),
                                             lambda eng, i: eng.subst_many(mk(eng, i), loops, ps),
                                             [lambda eng, i, v, f=f: [subst_all(c, loops, ps) for c in f(eng, i, v)]
                                              for f in facts], scalar=kind, mutable=mutable))
            return fam.get(loops)
        F = z3.Function(nm, *(ints + [z3.IntSort(), SORT[kind]]))
        fam = Family(nm, lambda ps: Base(nm, subst_all(n, loops, ps),
                                         lambda eng, i: Sym(kind, F(*(list(ps) + [zi(i)]))),
                                         [lambda eng, i, v, f=f: [subst_all(c, loops, ps) for c in f(eng, i, v)]
                                          for f in facts], scalar=kind, mutable=mutable))
        return fam.get(loops)

    def family(self, name, kind, length, facts=(), lo=0):
        """A family of sequences of scalars with one parameter; length(i) is the length term."""
        F = z3.Function(self.name(name), z3.IntSort(), z3.IntSort(), SORT[kind])
        return Family(name, lambda ps: Base(name, length(ps[0]), lambda eng, i: Sym(kind, F(ps[0], zi(i))),
                                            facts, scalar=kind))

    def subst_many(self, v, frm, to):
        for x, y in zip(frm, to):
            if not x.eq(y):
                v = self.subst(v, x, y)
        return v

    def sub_base(self, base, lo, hi):
        """base[lo:hi], 0 <= lo <= hi <= n known."""
        if isinstance(lo, int) and lo == 0 and not isinstance(hi, int) and not isinstance(base.n, int) and \
                zi(hi).eq(zi(base.n)):
            return base
        n = hi - lo if isinstance(lo, int) and isinstance(hi, int) else z3.simplify(zi(hi) - zi(lo))
        off = base.off + lo if isinstance(base.off, int) and isinstance(lo, int) else z3.simplify(zi(base.off) + zi(lo))
        b = Base(base.name, n, None, root=base.root, off=off, mutable=base.mutable, scalar=base.scalar)
        if self.basefacts.get(base.id):
            # facts that hold of the elements of this part on this path, in terms of the part's own index
            self.basefacts[b.id] = [lambda eng, i, v, f=f, lo=lo: f(eng, zi(lo) + i, v)
                                    for f in self.basefacts[base.id]] if base.id != base.root.id else []
        return b

    def elem(self, base, i):
        i = z3.simplify(zi(i))
        extra = self.basefacts.get(base.id, ()) if base.root is not base else ()
        if base.root is not base:
            v = self.elem(base.root, zi(base.off) + i)
            for f in extra:
                for c in f(self, i, v):
                    self.assume(c)
            return v
        got = self.inst.setdefault(base.id, [])
        for t, v in got:
            if t.eq(i):
                return v
        over = self.basever.get(base.id)
        v = (over or base)._elem(self, i)
        if isinstance(v, Sym):
            v = lift(v.kind, z3.simplify(v.t))
        got.append((i, v))
        if isinstance(v, Ref):
            self.basefacts.setdefault("made", []).append((base, i, v, self.obj(v).clone()))
        for f in list(base.facts) + list(self.basefacts.get(base.id, ())):
            for c in f(self, i, v):
                self.assume(c)
        if base.pairs:
            for t, w in list(got):
                if not t.eq(i):
                    for c in base.pairs(self, t, w, i, v):
                        self.assume(c)
        return v

    def sorted_base(self, b):
        root = b.root
        whole = z3.is_true(z3.simplify(zi(b.off) == 0)) and z3.is_true(z3.simplify(zi(b.n) == zi(root.n)))
        key = ("sorted",) if whole else ("sorted", str(b.off), str(b.n))
        kind = b.scalar
        if kind is None:
            raise Unsupported("sort of structured elements")
        if key not in root.cache:
            nm = self.name("sorted_" + root.name)
            np_ = len(root.params)
            ints = [z3.IntSort()] * (np_ + 1)
            F = z3.Function(nm, *(ints + [SORT[kind]]))
            P = z3.Function(nm + "_perm", *(ints + [z3.IntSort()]))
            Q = z3.Function(nm + "_inv", *(ints + [z3.IntSort()]))
            fam0 = root.fam

            def make(ps):
                src = fam0.members[tuple(p.sexpr() for p in ps)] if fam0.make is None else fam0.get(ps)
                part = src if whole else b
                at = lambda G, i: G(*(list(ps) + [zi(i)]))

                def facts(eng, i, v):
                    p = at(P, i)
                    eng.assume(z3.And(p >= 0, p < zi(part.n), at(Q, p) == i))
                    return [zt(eng.elem(part, p)) == at(F, i)]

                def pairs(eng, i, v, j, w):
                    return [z3.Implies(i <= j, zt(v) <= zt(w)), z3.Implies(j <= i, zt(w) <= zt(v))]

                s = Base(nm, part.n, lambda eng, i: Sym(kind, at(F, i)), [facts], scalar=kind, pairs=pairs)
                s.inv, s.of = (lambda i: at(Q, i)), part
                return s
            root.cache[key] = Family(nm, make)
        return root.cache[key].get(root.params)

    def base_pos(self, b):
        return b

    # lengths -------------------------------------------------------------------------------------------------------
    def segs_len(self, segs):
        n = 0
        t = None
        for s in segs:
            if isinstance(s, list):
                n += len(s)
            elif isinstance(s, Base):
                if isinstance(s.n, int):
                    n += s.n
                else:
                    t = s.n if t is None else t + s.n
            elif isinstance(s, Comp):
                k = {len(items) for _, _, items in s.cases}
                m = s.base.n
                ex = len(getattr(s, "excl", ()))
                if len(k) == 1:
                    c = k.pop()
                    x = (zi(m) - ex) * c
                else:
                    x = self.sum_over(s, [(c, a, len(items)) for c, a, items in s.cases], "int").t
                t = x if t is None else t + x
        if t is None:
            return n
        return lift("int", z3.simplify(t + n))

    def list_len(self, ref):
        return self.segs_len(self.obj(ref).segs)

    # element access ------------------------------------------------------------------------------------------------
    def split_at(self, segs, i):
        """(segments before, value at index i, segments after); 0 <= i < length is known.  Forks over segments."""
        before = []
        off = 0
        for k, s in enumerate(segs):
            if isinstance(s, list):
                for j, v in enumerate(s):
                    here = off + j if isinstance(off, int) else zi(off) + j
                    c = (here == i) if isinstance(here, int) and isinstance(i, int) else zi(here) == zi(i)
                    if self.branch(c):
                        return before + [s[:j]], v, [s[j + 1:]] + segs[k + 1:]
                before.append(s)
                off = off + len(s) if isinstance(off, int) else zi(off) + len(s)
            elif isinstance(s, Base):
                end = off + s.n if isinstance(off, int) and isinstance(s.n, int) else zi(off) + zi(s.n)
                last = k == len(segs) - 1
                c = True if last else (i < end if isinstance(end, int) and isinstance(i, int) else zi(i) < zi(end))
                if self.branch(c):
                    li = i - off if isinstance(i, int) and isinstance(off, int) else z3.simplify(zi(i) - zi(off))
                    v = self.elem(s, li)
                    self.note_split(s, li, v)
                    nxt = li + 1 if isinstance(li, int) else z3.simplify(li + 1)
                    return before + [self.sub_base(s, 0, li)], v, [self.sub_base(s, nxt, s.n)] + segs[k + 1:]
                before.append(s)
                off = end
            else:
                one = all(len(items) == 1 for _, _, items in s.cases) and not getattr(s, "excl", ())
                if not one:
                    raise Unsupported("element of %r" % s)
                end = off + s.base.n if isinstance(off, int) and isinstance(s.base.n, int) else zi(off) + zi(s.base.n)
                last = k == len(segs) - 1
                if self.branch(True if last else zi(i) < zi(end)):
                    li = z3.simplify(zi(i) - zi(off))
                    v = self.comp_items(s, li)[0]
                    return before + [Comp(self.sub_base(s.base, 0, li), s.ix, s.cases)], v, \
                        [self.comp_tail(s, li + 1)] + segs[k + 1:]
                before.append(s)
                off = end
        raise PathEnd()

    def comp_tail(self, s, lo):
        b = self.sub_base(s.base, lo, s.base.n)
        ix = z3.Int(self.name("ix"))
        return Comp(b, ix, [([self.sub(c, s.ix, ix + zi(lo)) for c in cs], [self.sub(a, s.ix, ix + zi(lo)) for a in as_],
                             [self.subst(v, s.ix, ix + zi(lo)) for v in items]) for cs, as_, items in s.cases])

    def norm_index(self, n, i):
        """Index i of a sequence of length n as a valid non-negative index, or None if out of range."""
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            return i if 0 <= i < n else None
        if not is_int(i):
            if isinstance(i, Sym) and i.kind == "bool" or isinstance(i, bool):
                i = lift("int", zi(i))
            else:
                self.throw("TypeError", "list indices must be integers")
        if isinstance(i, int):
            if i >= 0:
                return i if self.branch(zi(n) > i) else None
            return z3.simplify(zi(n) + i) if self.branch(zi(n) >= -i) else None
        t = zi(i)
        if self.branch(t < 0):
            t = z3.simplify(t + zi(n))
            return t if self.branch(t >= 0) else None
        return t if self.branch(t < zi(n)) else None

    def list_get(self, ref, i):
        o = self.obj(ref)
        segs = o.segs
        if isinstance(i, int) and i >= 0 and segs and isinstance(segs[0], list) and i < len(segs[0]):
            return segs[0][i]
        if isinstance(i, int) and i < 0 and segs and isinstance(segs[-1], list) and -i <= len(segs[-1]):
            return segs[-1][i]
        k = self.norm_index(self.segs_len(segs), i)
        if k is None:
            self.throw("IndexError", "list index out of range")
        before, v, after = self.split_at(self.norm_segs(segs), k)
        if isinstance(v, Ref):
            o.segs = before + [[v]] + after     # keeps the identity of a materialised element
        return v

    def list_set(self, ref, i, v):
        o = self.obj(ref)
        k = self.norm_index(self.segs_len(o.segs), i)
        if k is None:
            self.throw("IndexError", "list assignment index out of range")
        before, old, after = self.split_at(self.norm_segs(o.segs), k)
        o.segs = self.norm_segs(before + [[v]] + after)

    def list_pop(self, ref, i=-1):
        o = self.obj(ref)
        k = self.norm_index(self.segs_len(o.segs), i)
        if k is None:
            self.throw("IndexError", "pop from empty list")
        before, old, after = self.split_at(self.norm_segs(o.segs), k)
        o.segs = self.norm_segs(before + after)
        return old

    def list_append(self, ref, v):
        o = self.obj(ref)
        if o.segs and isinstance(o.segs[-1], list):
            o.segs = o.segs[:-1] + [o.segs[-1] + [v]]
        else:
            o.segs = o.segs + [[v]]

    def list_extend(self, ref, it):
        if isinstance(it, Ref) and isinstance(self.obj(it), HList):
            o = self.obj(ref)
            o.segs = self.norm_segs(o.segs + self.obj(it).clone().segs)
        elif isinstance(it, tuple):
            for v in it:
                self.list_append(ref, v)
        else:
            self.iterate(it, lambda v: self.list_append(ref, v))

    def proved(self, c):
        c = z3.simplify(c)
        return z3.is_true(c) or not z3.is_false(c) and self.check([z3.Not(c)], self.branch_ms)[0] == z3.unsat

    def clamp(self, n, i, default):
        """Slice bound: value in 0..n."""
        if i is None:
            return default
        if not is_int(i):
            self.throw("TypeError", "slice indices must be integers")
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            return max(0, min(n, i))
        t = zi(i)
        if self.branch(t < 0):
            t = z3.simplify(t + zi(n))
            if self.branch(t < 0):
                return 0
            return t
        if self.branch(t > zi(n)):
            return n if isinstance(n, int) else zi(n)
        return i if isinstance(i, int) else t

    def segs_slice(self, segs, lo, hi):
        n = self.segs_len(segs)
        lo, hi = self.clamp(n, lo, 0), self.clamp(n, hi, n if isinstance(n, int) else zi(n))
        if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
            return []
        if not self.branch(zi(lo) < zi(hi)):
            return []
        segs = self.norm_segs(segs)
        out = []
        off = 0
        for s in segs:
            ln = self.segs_len([s])
            ln = ln if isinstance(ln, int) else ln.t
            end = off + ln if isinstance(off, int) and isinstance(ln, int) else z3.simplify(zi(off) + zi(ln))
            a = self.max2(lo, off)
            b = self.min2(hi, end)
            if self.branch(zi(a) < zi(b)):
                x = a - off if isinstance(a, int) and isinstance(off, int) else z3.simplify(zi(a) - zi(off))
                y = b - off if isinstance(b, int) and isinstance(off, int) else z3.simplify(zi(b) - zi(off))
                if isinstance(s, list):
                    x = self.concrete_index(x, len(s))
                    y = self.concrete_index(y, len(s))
                    out.append(s[x:y])
                elif isinstance(s, Base):
                    out.append(self.sub_base(s, x, y))
                    self.note_cut(s, x)
                    self.note_cut(s, y)
                elif self.proved(z3.And(zi(x) == 0, zi(y) == zi(ln))):
                    out.append(s)
                else:
                    raise Unsupported("slice of %r" % s)
            off = end
        return self.norm_segs(out)

    def concrete_index(self, x, n):
        if isinstance(x, int):
            return x
        for k in range(n + 1):
            if self.branch(x == k):
                return k
        raise PathEnd()

    def max2(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b)
        return a if self.branch(zi(a) >= zi(b)) else b

    def min2(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b)
        return a if self.branch(zi(a) <= zi(b)) else b

    def list_repeat(self, ref, k):
        segs = self.obj(ref).segs
        if isinstance(k, int):
            return self.alloc(HList(self.norm_segs([list(s) if isinstance(s, list) else s
                                                    for _ in range(max(k, 0)) for s in segs])))
        segs = self.norm_segs(segs)
        if len(segs) == 1 and isinstance(segs[0], list) and len(segs[0]) == 1:
            v = segs[0][0]
            if not self.branch(zi(k) > 0):
                return self.alloc(HList([]))
            b = self.raw_base("rep", None, n=zi(k), mk=lambda eng, i: v)
            b.const = v
            return self.alloc(HList([b]))
        raise Unsupported("list * symbolic")

    def concrete_items(self, v):
        """The items of a finite iterable, or None if it has a symbolic part."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                out = []
                for s in o.segs:
                    if isinstance(s, list):
                        out += s
                    elif isinstance(s, Base) and isinstance(s.n, int) and s.n <= 64:
                        out += [self.elem(s, k) for k in range(s.n)]
                    else:
                        return None
                return out
        return None

    def sort_values(self, items, key=None, reverse=False):
        ks = [self.call(key, [v], {}) if key is not None else v for v in items]
        out = []
        for v, k in zip(items, ks):
            pos = len(out)
            while pos > 0 and self.branch(self.lt(k, out[pos - 1][1]) if not reverse else
                                          self.lt(out[pos - 1][1], k)):
                pos -= 1
            out.insert(pos, (v, k))
        return [v for v, _ in out]

    def sort_list(self, ref, key=None, reverse=False):
        o = self.obj(ref)
        if self.sort_rule is not None and key is None and not reverse and self.sort_rule(ref):
            return
        items = self.concrete_items(ref)
        if items is not None:
            o.segs = [self.sort_values(items, key, reverse)]
            return
        segs = self.norm_segs(o.segs)
        if key is None:
            entries = self.sort_entries(segs, reverse)
            if entries is not None:
                o.segs = entries
                return
        if key is not None or reverse:
            raise Unsupported("sort of a symbolic list with a key")
        if len(segs) != 1 or not isinstance(segs[0], Base):
            segs = [self.as_base(segs)]
        o.segs = [self.sorted_base(segs[0])]

    def as_base(self, segs):
        """A list of scalars as one base."""
        segs = self.norm_segs(segs)
        if len(segs) == 1 and isinstance(segs[0], Base):
            return segs[0]
        if len(segs) == 1 and isinstance(segs[0], Comp) and len(segs[0].cases) == 1 and \
                len(segs[0].cases[0][2]) == 1 and not getattr(segs[0], "excl", ()):
            c = segs[0]
            v = c.cases[0][2][0]
            b = c.cache_base if hasattr(c, "cache_base") else None
            if b is None:
                b = Base(self.name("map"), c.base.n, lambda eng, i: eng.comp_items(c, i)[0],
                         scalar=v.kind if isinstance(v, Sym) else None)
                c.cache_base = b
            return b
        raise Unsupported("list of several parts as one sequence")

    # aggregates ----------------------------------------------------------------------------------------------------
    # agg(base part, f) = sum of f over its elements.  AGG is a function of the part's bounds in its root.
    def agg_part(self, b, key, f, kind):
        root = b.root
        if hasattr(root, "const"):
            x = f(root.const)
            return z3.simplify((zr if kind == "float" else zi)(x) * zi(b.n))
        k = ("agg", key)
        if k not in root.cache:
            root.cache[k] = (z3.Function(self.name("agg_%s_%s" % (key, root.name)),
                                         *([z3.IntSort()] * (len(root.params) + 2) + [SORT[kind]])), f, kind)
        A, f, kind = self.agg_fn(root, k)
        lo, hi = zi(b.off), z3.simplify(zi(b.off) + zi(b.n))
        known = self.basefacts.setdefault(("aggs", root.id), [])
        if k not in known:
            known.append(k)
            for cut in self.basefacts.get(("cuts", root.id), []):
                self.agg_cut_facts(root, k, *cut)
            for at in self.basefacts.get(("points", root.id), []):
                self.agg_point(root, k, at)
        self.assume(z3.Implies(lo == hi, A(lo, hi) == 0))
        if key in self.counting:
            self.assume(A(lo, hi) >= 0)
        self.assume(z3.Implies(hi == lo + 1, A(lo, hi) == self.aggf(f, self.elem_t(root, lo), kind))
                    if root.scalar or root.flat else True)
        src = getattr(root, "of", None)
        if src is not None and key != "index":
            # a sorted sequence has the same total as the sequence it was sorted from
            whole = self.agg_part(src, key, f, kind)
            self.assume(A(z3.IntVal(0), zi(root.n)) == whole)
        return A(lo, hi)

    def agg_fn(self, root, k):
        A, f, kind = root.cache[k]
        ps = list(root.params)
        return (lambda lo, hi: A(*(ps + [lo, hi]))), f, kind

    def elem_t(self, root, i):
        return root._elem(self, zi(i))

    def aggf(self, f, v, kind):
        return (zr if kind == "float" else zi)(f(v))

    def agg_cut_facts(self, root, k, lo, mid, hi):
        A, f, kind = self.agg_fn(root, k)
        self.assume(z3.Implies(z3.And(lo <= mid, mid <= hi), A(lo, hi) == A(lo, mid) + A(mid, hi)))

    def note_split(self, b, i, v):
        """Element i of b is going to be looked at on its own."""
        self.note_cut(b, i)
        self.note_cut(b, zi(i) + 1)
        root = b.root
        if root.scalar or root.flat:
            at = z3.simplify(zi(b.off) + zi(i))
            points = self.basefacts.setdefault(("points", root.id), [])
            if not any(p.eq(at) for p in points):
                points.append(at)
                for k in self.basefacts.get(("aggs", root.id), []):
                    self.agg_point(root, k, at)

    def agg_point(self, root, k, at):
        A, f, kind = self.agg_fn(root, k)
        self.assume(A(at, z3.simplify(at + 1)) == self.aggf(f, self.elem_t(root, at), kind))

    def note_cut(self, b, i):
        root = b.root
        mid = z3.simplify(zi(b.off) + zi(i))
        cuts = self.basefacts.setdefault(("cuts", root.id), [])
        lo, hi = z3.simplify(zi(b.off)), z3.simplify(zi(b.off) + zi(b.n))
        for c in ((lo, mid, hi), (z3.IntVal(0), mid, z3.simplify(zi(root.n)))):
            if any(all(x.eq(y) for x, y in zip(c, d)) for d in cuts):
                continue
            cuts.append(c)
            for k in self.basefacts.get(("aggs", root.id), []):
                self.agg_cut_facts(root, k, *c)
        for x in list(cuts):
            if x[1].eq(mid):
                continue
            top = z3.simplify(zi(root.n))
            for tri in ((z3.IntVal(0), x[1], mid), (x[1], mid, top), (z3.IntVal(0), mid, x[1]), (mid, x[1], top)):
                if any(all(p.eq(q) for p, q in zip(tri, d)) for d in cuts):
                    continue
                cuts.append(tri)
                for k in self.basefacts.get(("aggs", root.id), []):
                    self.agg_cut_facts(root, k, *tri)

    def agg(self, segs, key, f, kind):
        total = None
        for s in self.norm_segs(segs):
            if isinstance(s, list):
                for v in s:
                    t = self.aggf(f, v, kind)
                    total = t if total is None else total + t
            elif isinstance(s, Base):
                t = self.agg_part(s, key, f, kind)
                total = t if total is None else total + t
            else:
                t = self.sum_over(s, [(c, a, self.sum_items([self.plain(v, s.ix) for v in items], f, kind)) for c, a, items in s.cases], kind)
                t = (zr if kind == "float" else zi)(t)
                total = t if total is None else total + t
        if total is None:
            return 0
        return lift(kind, z3.simplify(total))

    def plain(self, v, ix):
        """A scalar element of a base as a term in the index."""
        return v.b._elem(self, zi(v.b.off) + ix) if isinstance(v, BaseElem) else v

    def sum_items(self, items, f, kind):
        t = 0
        for v in items:
            t = self.arith("Add", t, f(v))
        return t

    def sum_list(self, v, start=0):
        items = self.concrete_items(v)
        if items is not None:
            t = start
            for x in items:
                t = self.binop("Add", t, x)
            return t
        o = self.obj(v)
        kinds = set()
        for s in self.norm_segs(o.segs):
            if isinstance(s, Base):
                kinds.add(s.scalar)
            elif isinstance(s, list):
                kinds |= {"float" if is_float(x) else "int" for x in s}
            else:
                kinds |= {x.b.scalar if isinstance(x, BaseElem) else "float" if is_float(x) else "int" for _, _, items in s.cases for x in items}
        if not kinds <= {"int", "float"}:
            raise Unsupported("sum of %s" % kinds)
        kind = "float" if "float" in kinds else "int"
        return self.binop("Add", start, self.agg(o.segs, "sum", lambda x: x, kind))

    def sum_over(self, comp, cases, kind):
        """The sum over all iterations of the delta of their case; the same sum is always given the same symbol."""
        z = zr if kind == "float" else zi
        b = comp.base if isinstance(comp, Comp) else comp
        if len(cases) == 1 and not cases[0][0] and b.root.scalar == kind and isinstance(cases[0][2], Sym) and not getattr(comp, "excl", ()) and \
                z3.simplify(z(cases[0][2]) == zt(b._elem(self, zi(b.off) + comp.ix) if b.root is b else b.root._elem(self, zi(b.off) + comp.ix))).eq(z3.BoolVal(True)):
            return lift(kind, self.agg_part(b, "sum", lambda x: x, kind))       # the sum of a sequence's own elements
        ds = [d for _, _, d in cases]
        ex = tuple(getattr(comp, "excl", ()))
        if all(not isinstance(d, Sym) for d in ds) and len(set(ds)) == 1:
            t = z(ds[0]) * (zi(comp.base.n) - len(ex))
            return lift(kind, z3.simplify(t))
        for (b, ix, cs, k, s, e) in self.sums:
            if b.root is comp.base.root and k == kind and str(e) == str(ex) and self.bases_same(b, comp.base) and \
                    self.cases_eq(comp.base, ix, cs, comp.ix, cases, ex, z):
                return s
        s = Sym(kind, z3.Const(self.name("sum"), SORT[kind])) if not self.loops else self.fresh(kind, "sum")
        n = zi(comp.base.n) - len(ex)
        if all(not isinstance(d, Sym) for d in ds):
            lo, hi = min(ds), max(ds)
            self.assume(z3.And(s.t >= z(lo) * (z3.ToReal(n) if kind == "float" else n),
                               s.t <= z(hi) * (z3.ToReal(n) if kind == "float" else n)))
        elif self.valid_at(comp, lambda j: [z3.Implies(z3.And(*[self.sub(c, comp.ix, j) for c in cs] or
                                                              [z3.BoolVal(True)]),
                                                       self.sub(z(d), comp.ix, j) >= 0) for cs, a, d in cases]):
            self.assume(s.t >= 0)
        self.sums.append((comp.base, comp.ix, cases, kind, s, ex))
        return s

    def bases_same(self, a, b):
        return a is b or (a.root is b.root and z3.simplify(zi(a.off) == zi(b.off)).eq(z3.BoolVal(True))
                          and z3.simplify(zi(a.n) == zi(b.n)).eq(z3.BoolVal(True)))

    def valid_at(self, comp, facts):
        j = z3.Int(self.name("j"))
        try:
            cs = facts(j)
        except Unsupported:
            return False
        rng = [j >= 0, j < zi(comp.base.n)]
        r, _ = self.check(rng + [z3.Not(z3.And(*cs))], self.branch_ms)
        return r == z3.unsat

    def cases_eq(self, base, ix1, cs1, ix2, cs2, ex, z):
        j = z3.Int(self.name("j"))
        bad = []
        for c1, a1, d1 in cs1:
            for c2, a2, d2 in cs2:
                pre = [self.sub(c, ix1, j) for c in c1 + a1] + [self.sub(c, ix2, j) for c in c2 + a2]
                ne = self.sub(z(d1), ix1, j) != self.sub(z(d2), ix2, j)
                bad.append(z3.And(*(pre + [ne])))
        r, _ = self.check([j >= 0, j < zi(base.n), z3.Or(*bad)] + [j != zi(e) for e in ex], self.branch_ms)
        return r == z3.unsat

    # substitution --------------------------------------------------------------------------------------------------
    def sub(self, t, ix, j):
        if isinstance(t, z3.ExprRef):
            return z3.substitute(t, (ix, zi(j)))
        return t

    def subst(self, v, ix, j):
        """The value v at index j instead of ix; templates become heap objects."""
        if isinstance(v, Sym):
            return lift(v.kind, z3.simplify(self.sub(v.t, ix, j)))
        if isinstance(v, BaseElem):
            return self.elem(v.b, j)
        if isinstance(v, Nested):
            return Nested(self.subst_seg(v.seg, ix, j))
        if isinstance(v, tuple):
            return tuple(self.subst(x, ix, j) for x in v)
        if isinstance(v, Stub) and v.term is not None:
            t = self.sub(v.term, ix, j)
            if t.eq(v.term):
                return v
            s = Stub(v.name, v.attrs, v.call, t)
            return s
        if isinstance(v, TObj):
            if v.kind == "list":
                return self.alloc(HList([self.subst_seg(s, ix, j) for s in v.data[0]], v.data[1]))
            if v.kind == "dict":
                return self.alloc(HDict([[self.subst(k, ix, j), self.subst(x, ix, j)] for k, x in v.data[0]],
                                        None, v.data[1], [self.subst_seg(c, ix, j) for c in v.data[2]]))
            if v.kind == "inst":
                return self.alloc(HInst(v.data[0], {k: self.subst(x, ix, j) for k, x in v.data[1].items()}))
        return v

    def subst_seg(self, s, ix, j):
        if isinstance(s, list):
            return [self.subst(v, ix, j) for v in s]
        if isinstance(s, Base):
            return self.subst_base(s, ix, j)
        b = self.subst_base(s.base, ix, j)
        c = Comp(b, s.ix, [([self.sub(x, ix, j) for x in cs], [self.sub(x, ix, j) for x in as_],
                            [self.subst_t(v, ix, j) for v in items]) for cs, as_, items in s.cases])
        c.excl = tuple(self.sub(zi(e), ix, j) for e in getattr(s, "excl", ()))
        return c

    def subst_t(self, v, ix, j):
        """Like subst, but templates stay templates."""
        if isinstance(v, TObj):
            if v.kind == "list":
                return TObj("list", ([self.subst_seg_t(s, ix, j) for s in v.data[0]], v.data[1]))
            if v.kind == "inst":
                return TObj("inst", (v.data[0], {k: self.subst_t(x, ix, j) for k, x in v.data[1].items()}))
            if v.kind == "dict":
                return TObj("dict", ([[self.subst_t(k, ix, j), self.subst_t(x, ix, j)] for k, x in v.data[0]],
                                     v.data[1], [self.subst_seg_t(c, ix, j) for c in v.data[2]]))
        if isinstance(v, tuple):
            return tuple(self.subst_t(x, ix, j) for x in v)
        return self.subst(v, ix, j)

    def subst_seg_t(self, s, ix, j):
        if isinstance(s, list):
            return [self.subst_t(v, ix, j) for v in s]
        return self.subst_seg(s, ix, j)

    def subst_base(self, b, ix, j):
        r = b.root
        if r.params:
            ps = tuple(self.sub(p, ix, j) for p in r.params)
            if not all(p.eq(q) for p, q in zip(ps, r.params)):
                r = r.fam.get(ps)
        if b.root is b:
            return r
        off, n = self.sub(zi(b.off), ix, j), self.sub(zi(b.n), ix, j)
        if r is b.root and off.eq(zi(b.off)) and n.eq(zi(b.n)):
            return b
        return Base(b.name, n, None, root=r, off=off, mutable=b.mutable, scalar=b.scalar)

    def reify(self, v, old):
        """A value as a template: heap objects that are not in old (created in this iteration) are copied out."""
        if isinstance(v, tuple):
            return tuple(self.reify(x, old) for x in v)
        if isinstance(v, Ref) and v.a not in old:
            o = self.obj(v)
            if isinstance(o, AccDict):
                raise Unsupported("loop-carried dict")
            if isinstance(o, HList):
                return TObj("list", ([[self.reify(x, old) for x in s] if isinstance(s, list) else s for s in o.segs],
                                     o.kind))
            if isinstance(o, HDict):
                if o.rest is not None:
                    return v
                return TObj("dict", ([[self.reify(k, old), self.reify(x, old)] for k, x in (en[:2] for en in o.entries)
                                      if x is not ABSENT], o.kind, list(o.comps)))
            if isinstance(o, HInst):
                return TObj("inst", (o.cls, {k: self.reify(x, old) for k, x in o.attrs.items()}))
            return v
        return v

    def comp_items(self, comp, j):
        """The items that a summarised loop produced at index j (forks over its cases)."""
        for cs, as_, items in comp.cases[:-1] if len(comp.cases) > 1 else []:
            if self.branch(And(*[self.sub(c, comp.ix, j) for c in cs])):
                for a in as_:
                    self.assume(self.sub(a, comp.ix, j))
                return [self.subst(v, comp.ix, j) for v in items]
        cs, as_, items = comp.cases[-1]
        for c in cs + as_:
            self.assume(self.sub(c, comp.ix, j))
        return [self.subst(v, comp.ix, j) for v in items]

    def as_comp(self, s):
        if isinstance(s, Comp):
            return s
        ix = z3.Int(self.name("ix"))
        return BaseComp(s, ix)

    def splice(self, items):
        out = []
        for v in items:
            if isinstance(v, Nested):
                out.append(v.seg)
            else:
                out.append([v])
        return self.norm_segs(out)

    # equality of symbolic parts -----------------------------------------------------------------------------------
    def base_eq(self, x, y):
        if x is y:
            return True
        n = zi(x.n) == zi(y.n)
        if x.root is y.root:
            o = z3.simplify(zi(x.off) == zi(y.off))
            if z3.is_true(o) or z3.is_true(z3.simplify(zi(x.n) == 0)):
                return n
            r, _ = self.check([z3.Not(o)], self.branch_ms)
            if r == z3.unsat:
                return n
        j = z3.Int(self.name("j"))
        ok = [True]

        def one():
            self.assume(n)
            self.assume(z3.And(j >= 0, j < zi(x.n)))
            self.loops.append(j)
            c = self.eq(self.elem(x, j), self.elem(y, j))
            if c is True:
                return
            r = z3.sat
            if c is not False:
                r, _ = self.check([z3.Not(c)], self.timeout_ms)
            else:
                r, _ = self.check([], self.timeout_ms)
            if r != z3.unsat:
                ok[0] = False
        self.explore(one)
        return n if ok[0] else None

    def comp_eq(self, x, y):
        if x is y:
            return True
        n = True
        if x.base is not y.base:
            if x.base.root is y.base.root:
                n = And(zi(x.base.n) == zi(y.base.n), zi(x.base.off) == zi(y.base.off))
            else:
                n = zi(x.base.n) == zi(y.base.n)
        ex, ey = [z3.simplify(zi(e)) for e in getattr(x, "excl", ())], [z3.simplify(zi(e)) for e in getattr(y, "excl", ())]
        if {e.sexpr() for e in ex} != {e.sexpr() for e in ey}:
            return None
        j = z3.Int(self.name("j"))
        ok = [True]

        def one():
            self.assume(n)
            self.assume(z3.And(j >= 0, j < zi(x.base.n)))
            for e in ex:
                self.assume(j != e)
            self.loops.append(j)
            a = self.comp_items(x, j)
            b = self.comp_items(y, j)
            c = self.segs_eq(self.splice(a), self.splice(b))
            if c is None:
                ok[0] = False
                return
            if c is True:
                return
            r, _ = self.check([] if c is False else [z3.Not(c)], self.timeout_ms)
            if r != z3.unsat:
                ok[0] = False
        self.explore(one)
        return n if ok[0] else None

    # iteration -----------------------------------------------------------------------------------------------------
    def iterate(self, v, cb):
        """Calls cb(value) for every element of an iterable; symbolic parts are summarised or done by induction."""
        if isinstance(v, tuple):
            for x in v:
                cb(x)
            return
        if isinstance(v, str):
            for c in v:
                cb(c)
            return
        if isinstance(v, Sym) and v.kind == "str":
            self.loop_base(self.char_base(v), cb, src=v)
            return
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                segs = self.norm_segs(o.clone().segs)
                self.iterate_segs(segs, cb, src=v)
                return
            if isinstance(o, HDict):
                self.iterate_segs(self.dict_segs(v, "keys"), cb, src=v)
                return
            if isinstance(o, HIter):
                while o.pos < len(o.items):
                    x = o.items[o.pos]
                    o.pos += 1
                    cb(x)
                    o = self.obj(v)
                return
            if isinstance(o, HGen):
                self.run_generator(v, cb)
                return
            if isinstance(o, HInst):
                f = self.class_lookup(o.cls, "__iter__")
                if f is not None:
                    self.iterate(self.call(self.bind(f, v, o.cls), [], {}), cb)
                    return
        if isinstance(v, LazyIter):
            v.run(self, cb)
            return
        if v is None or is_num(v):
            self.throw("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def char_base(self, s):
        return self.raw_base("chars", None, n=z3.Length(s.t), mk=lambda eng, i: Sym("str", z3.SubString(s.t, i, 1)))

    def unchanged_size(self, src, cb):
        """A dict must not change its size while it is iterated over."""
        def one(x):
            before = self.obj(src).clone()
            cb(x)
            now = self.obj(src)
            if same_hobj(before, now):
                return
            n = self.dict_len(src)
            probe = self.alloc(before)
            if self.branch(Not(self.eq(n, self.dict_len(probe)))):
                self.throw("RuntimeError", "dictionary changed size during iteration")
        return one

    def iterate_segs(self, segs, cb, src=None):
        if isinstance(src, Ref) and isinstance(self.obj(src), HDict):
            cb = self.unchanged_size(src, cb)
        for s in segs:
            if isinstance(s, list):
                for x in s:
                    cb(x)
            else:
                self.loop_base(s, cb, src)
            if isinstance(src, Ref) and getattr(self.obj(src), "kind", None) == "deque" and \
                    not self.same_len_segs(segs, self.norm_segs(self.obj(src).segs)):
                self.throw("RuntimeError", "deque changed size during iteration")

    def same_len_segs(self, a, b):
        return len(a) == len(b) and all(same_seg(x, y) for x, y in zip(a, b))

    def loop_base(self, s, cb, src=None):
        if isinstance(s, Base) and isinstance(s.n, int) and s.n <= 64:
            for k in range(s.n):
                cb(self.elem(s, k))
            return
        inv = self.find_invariant(s, src)
        if inv is not None and inv.applies(self, s, cb):
            self.inductive(s, cb, inv)
        else:
            self.summarize(s, cb)

    def find_invariant(self, s, src):
        b = s.base if isinstance(s, Comp) else s
        for f in self.invariants:
            r = f(self, s, b, src)
            if r is not None:
                return r
        return None

    def iter_values(self, s, i):
        """The values that one iteration at index i gives."""
        if isinstance(s, Base):
            return [self.elem(s, i)]
        return self.comp_items(s, i)

    def changes(self, start, dropped=()):
        """What differs from the heap at the start of the body: list of (addr, field or None, value now)."""
        out = []
        for a, o in start.items():
            now = self.heap.get(a)
            if now is o:
                continue
            if isinstance(o, (HInst, HEnv)):
                for k in set(o.attrs) | set(now.attrs):
                    x, y = o.attrs.get(k, ABSENT), now.attrs.get(k, ABSENT)
                    if not same_val(x, y):
                        out.append((a, k, y))
            elif not same_hobj(o, now) and not self.only_split(o, now):
                out.append((a, None, now))
        return out

    def only_split(self, was, now):
        """Whether a list is as it was, apart from elements of a sequence that now stand on their own (list_get does that)."""
        if not isinstance(was, HList) or not isinstance(now, HList) or len(was.segs) != 1 or not isinstance(was.segs[0], Base):
            return False
        b, at = was.segs[0], 0
        for s in now.segs:
            items = s if isinstance(s, list) else [s]
            for x in items:
                if isinstance(x, Base) and x.root is b.root:
                    if not self.proved(zi(x.off) == zi(b.off) + zi(at)):
                        return False
                    at = z3.simplify(zi(at) + zi(x.n))
                elif isinstance(x, Ref):
                    if not any(v is x or v == x for t, v in self.inst.get(b.root.id, ()) if self.proved(t == zi(b.off) + zi(at))):
                        return False
                    at = z3.simplify(zi(at) + 1)
                else:
                    return False
        return self.proved(zi(at) == zi(b.n))

    def summarize(self, s, cb):
        """Runs the body once, on an arbitrary element, and derives the effect of the whole loop from it.  Sound only
        because every location that an iteration changes is one of: append-only list, additive number, the entry of
        the iteration's own key, or a temporary; anything else is Unsupported."""
        self.summaries += 1
        base = s.base if isinstance(s, Comp) else s
        excl = tuple(getattr(s, "excl", ()))
        n = zi(base.n)
        ix = z3.Int(self.name("i"))
        carried = {}        # (addr, field) -> ("num", kind) | ("temp",) | ("list",) | ("dict",) | ("keyed",)
        while True:
            info = {}

            def body():
                self.assume(z3.And(ix >= 0, ix < n))
                for e in excl:
                    self.assume(ix != zi(e))
                self.loops.append(ix)
                old = set(self.heap)
                info["accs"] = {}
                for (a, k), how in carried.items():
                    o = self.heap[a]
                    if how[0] == "num":
                        acc = z3.Const(self.name("acc"), SORT[how[1]])
                        info["accs"][(a, k)] = acc
                        o.attrs[k] = Sym(how[1], acc)
                    elif how[0] == "temp":
                        if k in o.attrs:
                            o.attrs[k] = Poison("%s, assigned in a loop" % k)
                    elif how[0] == "list":
                        acc = AccList(self.name("acc"), z3.Const(self.name("acclen"), z3.IntSort()),
                                      lambda eng, i: Poison("list filled by a loop"))
                        info["accs"][(a, k)] = acc
                        o.segs = [acc]
                    elif how[0] == "dict":
                        self.heap[a] = AccDict(o.kind)
                start = {a: o.clone() for a, o in self.heap.items()}
                for a in start:
                    if a in self.heap:
                        pass
                snap0 = start
                kind, val = "next", None
                try:
                    for g in self.splice(self.iter_values(s, ix)):
                        if isinstance(g, list):
                            for v in g:
                                cb(v)
                        else:
                            self.loop_base(g, cb)
                except (BreakEx, ReturnEx) as e:
                    kind, val = "exit", e
                except (PyExc, ConsumerExc) as e:
                    kind, val = "raise", e
                ch = self.changes(snap0)
                effects = []
                for mb, mi, mv, mo in self.basefacts.get("made", ()):
                    if mv.a in snap0 or mv.a not in self.heap:
                        continue
                    now = self.heap[mv.a]
                    if self.obj_changed(mo, now):
                        if not z3.simplify(zi(mi)).eq(ix):
                            raise Unsupported("a loop changes another element than its own")
                        effects.append((mb.id, "elements", "mut", self.reify(mv, old), mb))
                for a, k, now in ch:
                    how = carried.get((a, k))
                    if how is None:
                        effects.append((a, k, "new", now, snap0[a]))
                    elif how[0] == "num":
                        effects.append((a, k, "num", now, info["accs"][(a, k)]))
                    elif how[0] == "list":
                        acc = info["accs"][(a, k)]
                        if not (now.segs and now.segs[0] is acc):
                            raise Unsupported("a list is changed by a loop in another way than by appending")
                        tail = []
                        for g in now.segs[1:]:
                            tail.append([self.reify(x, old) for x in g] if isinstance(g, list) else g)
                        effects.append((a, k, "list", tail, acc))
                    elif how[0] == "dict":
                        if not isinstance(now, AccDict):
                            raise Unsupported("a dict is replaced in a loop")
                        effects.append((a, k, "dict", [(self.reify(x, old), self.reify(y, old))
                                                       for x, y in now.acc_pairs], None))
                    elif how[0] == "temp":
                        effects.append((a, k, "temp", self.reify(now, old), None))
                    elif how[0] == "keyed":
                        effects.append((a, k, "keyed", self.keyed_effect(snap0[a], now, ix, old), None))
                return kind, val, effects, dict(info["accs"])

            paths = self.explore(body)
            new = {}
            for p in paths:
                if p.outcome[0] != "next":
                    continue
                for a, k, what, now, was in p.outcome[2]:
                    if what != "new":
                        continue
                    new[(a, k)] = self.classify(new.get((a, k)), a, k, now, was, ix, base)
            for key, how in list(carried.items()):
                if how[0] == "num" and how[1] == "int":
                    if any(e[0] == key[0] and e[1] == key[1] and is_float(e[3]) for p in paths
                           for e in p.outcome[2] if p.outcome[0] == "next"):
                        new[key] = ("num", "float")
                if how[0] == "num" and any(e[0] == key[0] and e[1] == key[1] and
                                           not (is_num(e[3]) and self.mentions(e[3], p.outcome[3][key]))
                                           for p in paths for e in p.outcome[2] if p.outcome[0] == "next"):
                    new[key] = ("temp",)
            if not new:
                break
            carried.update(new)
        self.apply_summary(s, base, excl, ix, carried, paths, cb)

    def obj_changed(self, a, b):
        if isinstance(a, (HInst, HEnv)):
            return set(a.attrs) != set(b.attrs) or any(not same_val(a.attrs[k], b.attrs[k]) for k in a.attrs)
        return not same_hobj(a, b)

    def mentions(self, v, acc):
        return isinstance(v, Sym) and acc.decl().name() in free_consts(v.t)

    def classify(self, prev, a, k, now, was, ix, base):
        if isinstance(was, (HInst, HEnv)):
            old = was.attrs.get(k, ABSENT)
            if is_num(old) and is_num(now) and not isinstance(old, bool):
                if prev == ("temp",):
                    return prev
                return ("num", "float" if is_float(old) or is_float(now) or prev == ("num", "float") else "int")
            return ("temp",)
        if isinstance(was, HList):
            return ("list",)
        if isinstance(was, HDict):
            if was.rest is not None and isinstance(now, HDict) and len(now.comps) == len(was.comps):
                return ("keyed",)
            return ("dict",)
        raise Unsupported("a loop changes %r" % was)

    def keyed_effect(self, was, now, ix, old):
        """What an iteration did to the entries of its own key in a dict with a symbolic rest."""
        if not isinstance(now, HDict) or len(now.comps) != len(was.comps):
            raise Unsupported("a loop changes a dict in a way that is not understood")
        val = None
        known = len(was.entries)
        for e0, e1 in zip(was.entries, now.entries[:known]):
            if not same_val(e0[1], e1[1]) or not same_val(e0[0], e1[0]):
                raise Unsupported("a loop changes the entry of another key")
        if now.rest is None:
            raise Unsupported("a loop clears the dict it goes over")
        got = None
        for k, v, e, orig in now.entries[known:]:
            if e is None:
                if v is ABSENT:
                    continue        # looked up, and missing
                raise Unsupported("a loop adds a key")
            if z3.simplify(zi(e)).eq(ix):
                got = v
            elif not same_val(v, orig):
                raise Unsupported("a loop changes the entry of another key")
        if got is ABSENT:
            raise Unsupported("a loop deletes entries")
        return None if got is None else self.reify(got, old)

    def apply_summary(self, s, base, excl, ix, carried, paths, cb):
        n = zi(base.n)
        normal = [p for p in paths if p.outcome[0] == "next"]
        abrupt = [p for p in paths if p.outcome[0] != "next"]
        # nothing that decides what an iteration does may depend on what the earlier ones did
        names = set()
        for p in paths:
            for acc in p.outcome[3].values():
                names.add(acc.name if isinstance(acc, Base) else acc.decl().name())
                if isinstance(acc, Base) and not isinstance(acc.n, int):
                    names |= free_consts(acc.n)
        for p in paths:
            for c in p.conds + p.assumed:
                if free_consts(c) & names:
                    raise Unsupported("the iterations of a loop depend on each other")
        if abrupt:
            k = self.choose(2)
            norm_cond = lambda i: Or(*[And(*[self.sub(c, ix, i) for c in p.conds]) for p in normal])
            if k == 0:
                if not normal:
                    self.assume(n == len(excl))
                    return
                # no iteration exits: every element satisfies the condition of a normal case
                self.basefacts.setdefault(base.id, []).append(lambda eng, i, v: [zb_(norm_cond(i))])
                for t, v in list(self.inst.get(base.id, ())):
                    self.assume(norm_cond(t))
                self.exits.append((base, None, norm_cond, tuple(self.loops)))
                self.apply_effects(s, base, excl, ix, carried, normal, names)
                return
            if excl or isinstance(s, Comp):
                # exits at one of the elements; which of the others came before it is not tracked
                if any(p.outcome[2] for p in normal):
                    carriedtemps = all(carried[(a, kk)][0] == "temp" for p in normal for a, kk, *_ in p.outcome[2])
                    if not carriedtemps:
                        raise Unsupported("a loop over a dict is left early")
            m = self.fresh("int", "exit").t
            self.assume(z3.And(m >= 0, m < n))
            for e in excl:
                self.assume(m != zi(e))
            if normal:
                pre = self.sub_base(base, 0, m) if not isinstance(s, Comp) else None
                if pre is not None:
                    if pre is base:
                        raise PathEnd()
                    self.basefacts.setdefault(pre.id, []).append(lambda eng, i, v: [zb_(norm_cond(i))])
                    self.exits.append((base, m, norm_cond, tuple(self.loops)))
                    self.apply_effects(s, pre, excl, ix, carried, normal, names)
                else:
                    self.apply_effects(s, base, excl, ix, carried, normal, names, unknown_count=True)
            else:
                self.assume(m == 0)
            for v in self.iter_values(s, m):
                cb(v)
            raise PathEnd()
        self.apply_effects(s, base, excl, ix, carried, normal, names)

    def apply_effects(self, s, base, excl, ix, carried, normal, names, unknown_count=False):
        if not normal:
            # the body always exits or the loop has no iterations
            self.assume(zi(base.n) == len(excl))
            return
        src = Comp(base, ix, [])
        src.excl = excl
        touched = {}
        for p in normal:
            for a, k, what, x, acc in p.outcome[2]:
                touched.setdefault((a, k), what)
        for (a, k), what in list(touched.items()):
            if what == "mut":
                del touched[(a, k)]
                if unknown_count or base.n is not base.root.n and base.root is not base:
                    raise Unsupported("elements changed by a loop over a part")
                self.mutated(a, base, excl, ix, normal)
        for (a, k), what in touched.items():
            o = self.heap[a]
            how = carried[(a, k)]
            if unknown_count and how[0] != "temp":
                raise Unsupported("effects of a loop left early")
            if how[0] == "temp":
                o.attrs[k] = Poison("%s, assigned in a loop" % k)
            elif how[0] == "num":
                kind = how[1]
                z = zr if kind == "float" else zi
                cases = []
                for p in normal:
                    e = [e for e in p.outcome[2] if e[0] == a and e[1] == k]
                    if not e:
                        cases.append((p.conds, p.assumed, 0))
                        continue
                    now, acc = e[0][3], e[0][4]
                    d = z3.simplify(z(now) - acc, som=True)
                    if free_consts(d) & names:
                        raise Unsupported("%s is not merely added to by a loop" % k)
                    cases.append((p.conds, p.assumed, lift(kind, d)))
                t = self.sum_over(src, cases, kind)
                o.attrs[k] = self.arith("Add", o.attrs[k], t)
            elif how[0] == "list":
                cases = []
                for p in normal:
                    e = [e for e in p.outcome[2] if e[0] == a and e[1] == k]
                    tail = e[0][3] if e else []
                    items = []
                    for g in tail:
                        if isinstance(g, list):
                            items += g
                        else:
                            items.append(Nested(g))
                    self.no_carry(items, names)
                    cases.append((p.conds, p.assumed, items))
                if any(isinstance(x, Nested) for _, _, items in cases for x in items):
                    c = NestedComp(base, ix, cases)
                else:
                    c = Comp(base, ix, cases)
                c.excl = excl
                o.segs = self.norm_segs(o.segs + [c])
            elif how[0] == "dict":
                cases = []
                for p in normal:
                    e = [e for e in p.outcome[2] if e[0] == a and e[1] == k]
                    pairs = [(x, y) for x, y in (e[0][3] if e else [])]
                    self.no_carry(pairs, names)
                    cases.append((p.conds, p.assumed, pairs))
                c = Comp(base, ix, cases)
                c.excl = excl
                o.comps = o.comps + [c]
            elif how[0] == "keyed":
                cases = []
                for p in normal:
                    e = [e for e in p.outcome[2] if e[0] == a and e[1] == k]
                    v = e[0][3] if e else None
                    if v is not None:
                        self.no_carry([v], names)
                    cases.append((p.conds, p.assumed, [v]))
                if all(v is None for _, _, (v,) in cases):
                    continue            # only looked up
                o.rest = self.updated_rest(o.rest, base, ix, cases)

    def mutated(self, bid, base, excl, ix, normal):
        """The elements of base bid are changed in place by every iteration, each its own."""
        cases = []
        target = None
        for p in normal:
            e = [e for e in p.outcome[2] if e[0] == bid and e[2] == "mut"]
            if e:
                target = e[0][4]
            cases.append((p.conds, p.assumed, [e[0][3] if e else None]))
        if any(isinstance(v, Ref) and not any(t is i for i in ()) for t, v in self.inst.get(bid, ())):
            raise Unsupported("an element changed by a loop is also held elsewhere")
        prev = self.basever.get(bid) or target

        def elem(eng, j):
            for n, (cs, as_, (v,)) in enumerate(cases):
                if n == len(cases) - 1:
                    for c in cs:
                        eng.assume(eng.sub(c, ix, j))
                elif not eng.branch(And(*[eng.sub(c, ix, j) for c in cs])):
                    continue
                for a in as_:
                    eng.assume(eng.sub(a, ix, j))
                return prev._elem(eng, j) if v is None else eng.subst(v, ix, j)

        self.basever[bid] = Base(target.name + "'", target.n, elem, mutable=True)

    def no_carry(self, v, names):
        if isinstance(v, (list, tuple)):
            for x in v:
                self.no_carry(x, names)
        elif isinstance(v, Sym):
            if free_consts(v.t) & names:
                raise Unsupported("a loop carries values from one iteration to the next")
        elif isinstance(v, Poison):
            raise Unsupported("a loop stores a value left by another loop")
        elif isinstance(v, TObj):
            self.no_carry([x for x in (v.data if v.kind != "inst" else v.data[1].values())
                           if isinstance(x, (list, tuple, Sym, TObj))], names)

    def updated_rest(self, rest, base, ix, cases):
        if base.root is not rest.keys.root:
            raise Unsupported("a loop over another collection changes entries of a dict")
        old = rest.vals

        def elem(eng, j):
            for cs, as_, (v,) in cases[:-1]:
                if eng.branch(And(*[eng.sub(c, ix, j) for c in cs])):
                    for a in as_:
                        eng.assume(eng.sub(a, ix, j))
                    return eng.elem(old, j) if v is None else eng.subst(v, ix, j)
            cs, as_, (v,) = cases[-1]
            for c in cs + as_:
                eng.assume(eng.sub(c, ix, j))
            return eng.elem(old, j) if v is None else eng.subst(v, ix, j)

        kinds = {v.kind if isinstance(v, Sym) else None for _, _, (v,) in cases}
        nv = Base(self.name("upd_" + old.name), old.n, elem, scalar=kinds.pop() if len(kinds) == 1 else None,
                  mutable=old.mutable)
        return Rest(rest.keys, nv, rest.pos, rest.has, rest.excl)

    # induction -----------------------------------------------------------------------------------------------------
    def inductive(self, s, cb, inv):
        """Loop by induction: inv.state(engine) -> the addresses/fields it replaces; inv.holds(engine, k)."""
        base = s.base if isinstance(s, Comp) else s
        n = zi(base.n)
        inv.discover(self, s, cb)
        for nm, c in inv.check(self, z3.IntVal(0)):
            self.prove(c, "%s holds on entry" % nm)
        inv.prove_more(self, z3.IntVal(0), "holds on entry")
        which = self.choose(2)
        k = self.fresh("int", "k").t
        self.assume(z3.And(k >= 0, k <= n))
        inv.havoc(self, k)
        if which == 0:
            self.assume(k < n)
            for e in getattr(s, "excl", ()):
                self.assume(k != zi(e))
            for nm, c in inv.check(self, k):
                self.assume(c)
            allowed = inv.frame(self)
            start = {a: o.clone() for a, o in self.heap.items()}
            if hasattr(inv, "before"):
                inv.before(self, k)
            for v in self.iter_values(s, k):
                cb(v)
            if hasattr(inv, "after"):
                inv.after(self, k)
            self.check_frame(start, allowed, inv)
            for nm, c in inv.check(self, k + 1):
                self.prove(c, "%s is kept by an iteration" % nm)
            inv.prove_more(self, k + 1, "is kept by an iteration")
            raise PathEnd()
        self.assume(k == n)
        for nm, c in inv.check(self, k):
            self.assume(c)
        self.poison_temps(inv)

    def touched(self, s, cb):
        """What an iteration of the loop at an arbitrary index changes from the present state."""
        base = s.base if isinstance(s, Comp) else s
        k = z3.Int(self.name("probe"))
        out = set()

        def one():
            self.assume(z3.And(k >= 0, k < zi(base.n)))
            for e in getattr(s, "excl", ()):
                self.assume(k != zi(e))
            start = {a: o.clone() for a, o in self.heap.items()}
            saved = self.silent
            self.silent = True
            try:
                for v in self.iter_values(s, k):
                    cb(v)
            except (BreakEx, ReturnEx, PyExc, ConsumerExc):
                pass
            finally:
                self.silent = saved
            for a, f, now in self.changes(start):
                out.add((a, f))
        self.explore(one)
        return out

    def check_frame(self, start, allowed, inv):
        for a, k, now in self.changes(start):
            if (a, k) in allowed or (a, None) in allowed or (a, "*") in allowed:
                continue
            if isinstance(self.heap[a], HEnv):
                inv.temps.add((a, k))
                if start[a].attrs.get(k, ABSENT) is ABSENT or isinstance(start[a].attrs.get(k), Poison):
                    continue
                raise Unsupported("local %s is changed by a loop and not covered by its invariant" % k)
            raise Unsupported("a loop changes %s of %r, which its invariant does not cover" % (k, start[a]))

    def poison_temps(self, inv):
        pass


class Invariant(object):
    """Base class of the invariants of loops that contracts supply."""

    def __init__(self):
        self.temps = set()

    def applies(self, eng, s, cb):
        """Whether this loop is the one it is for."""
        return True

    def discover(self, eng, s, cb):
        """Finds what the loop changes, before anything is assumed about it."""

    def prove_more(self, eng, k, when):
        """Obligations that need a case analysis of their own."""

    def havoc(self, eng, k):
        pass

    def frame(self, eng):
        return set()

    def check(self, eng, k):
        return []


class Nested(object):
    """A symbolic part inside the items of one iteration."""

    def __init__(self, seg):
        self.seg = seg


class NestedComp(Comp):
    pass


class BaseComp(Comp):
    def __init__(self, b, ix):
        Comp.__init__(self, b, ix, [])
        self.cases = [([], [], [BaseElem(b, ix)])]


class BaseElem(object):
    def __init__(self, b, ix):
        self.b, self.ix = b, ix


class LazyIter(object):
    """An iterable given by a Python function run(engine, cb)."""

    def __init__(self, run, name="iter"):
        self._run, self.name = run, name
        self.of_dict = None         # the dict and what of it this goes over

    def run(self, eng, cb):
        self._run(eng, cb)


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def subst_all(t, frm, to):
    if isinstance(t, z3.ExprRef):
        return z3.substitute(t, *[(x, zi(y)) for x, y in zip(frm, to)])
    return t


def zt(v):
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return zr(v)
    if isinstance(v, str):
        return zs(v)
    t = obj_term(v)
    if t is not None:
        return t
    raise Unsupported("no term for %r" % (v,))
