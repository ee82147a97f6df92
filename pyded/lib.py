"""Contracts of the builtins and of the standard library functions that the code under verification uses."""
import re as pyre
from fractions import Fraction

import z3

from .core import (ABSENT, Base, BoundM, Builtin, ClassV, Comp, Descr, ExtV, Func, HDict, HEnv, HGen, HInst, HIter,
                   HList, ModuleV, NonFin, Partial, PathEnd, Poison, Ref, Stub, SuperV, Sym, U, Unsupported, is_boolv,
                   is_float, is_int, is_num, is_str, lift, zi, zr, zs)
from .ops import (And, EXP, LOG2, Not, Or, SQRT, STR_INT, STR_REAL, UTF8, concat, flat, join_lits, unflat)
from .seqs import BaseElem, LazyIter, Nested, PyExc, TObj

S = z3.StringSort()
HAS = z3.Function("has", S, S, z3.BoolSort())           # the character occurs in the string
HEAD = z3.Function("head", S, S, S)                     # before the first occurrence
TAIL = z3.Function("tail", S, S, S)                     # after it
STRIP = z3.Function("strip", S, S)
LSTRIP = z3.Function("lstrip", S, S)
RSTRIP = z3.Function("rstrip", S, S)
LOWER = z3.Function("lower", S, S)
UPPER = z3.Function("upper", S, S)
FNMATCH = z3.Function("fnmatch", S, S, z3.BoolSort())
NTOK = z3.Function("ntokens", S, z3.IntSort())
TOK = z3.Function("token", S, z3.IntSort(), S)
INT16 = z3.Function("int16", S, z3.IntSort())
MD5 = z3.Function("md5", S, S)
SPACE = " \t\n\r\x0b\x0c"


def parts_of(v):
    return flat(v) if isinstance(v, str) else flat(v.t)


class LibMixin(object):
    pass


def spec_of(eng, t, default=None):
    """What is known of an opaque string: by its term, or, for the elements of a sequence, by the function that gives them."""
    r = eng.strspec.get(t.sexpr())
    if r is None and eng.strspec_decl and z3.is_app(t) and t.decl().name() in eng.strspec_decl:
        r = eng.strspec_decl[t.decl().name()](t)
    return default if r is None else r


def sym_has(eng, p, ch):
    """bool or condition: the one-character string ch occurs in the opaque part p."""
    if z3.is_app(p):
        d = p.decl()
        if d.eq(STR_INT):
            return False if ch not in "-0123456789" else HAS(p, zs(ch))
        if d.eq(STR_REAL):
            return False if ch not in "-+.0123456789einfa" else HAS(p, zs(ch))
        if d.eq(UTF8) and ord(ch) < 128:
            return sym_has(eng, p.arg(0), ch)
        if d.eq(STRIP) and ch not in SPACE:
            return sym_has(eng, p.arg(0), ch)
        if d.eq(HEAD) and z3.is_string_value(p.arg(1)) and p.arg(1).as_string() == ch:
            return False
        if d.eq(TOK) and ch in SPACE:
            return False
    spec = spec_of(eng, p)
    if spec is not None and ch in spec.get("without", ()):
        return False
    if spec is not None and "alphabet" in spec and ch not in spec["alphabet"]:
        return False
    return HAS(p, zs(ch))


def str_contains(eng, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(x, str) and len(x) == 1:
        return Or(*[(x in p) if isinstance(p, str) else sym_has(eng, p, x) for p in parts_of(c)])
    if isinstance(x, str) and not x:
        return True
    return z3.Contains(zs(c), zs(x))


def split_once(eng, parts, ch):
    """(parts before, parts after) the first occurrence of ch, or None."""
    for k, p in enumerate(parts):
        if isinstance(p, str):
            j = p.find(ch)
            if j >= 0:
                return parts[:k] + [p[:j]], [p[j + 1:]] + parts[k + 1:]
        elif eng.branch(sym_has(eng, p, ch)):
            h, t = HEAD(p, zs(ch)), TAIL(p, zs(ch))
            return parts[:k] + [h], [t] + parts[k + 1:]
    return None


def s_split(eng, a, kw):
    s = a[0]
    sep = a[1] if len(a) > 1 else kw.get("sep")
    mx = a[2] if len(a) > 2 else kw.get("maxsplit", -1)
    if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(mx, int):
        return eng.alloc(HList([s.split(sep, mx) if sep is not None else s.split(None, mx)]))
    if sep is None:
        if mx != -1:
            raise Unsupported("split by spaces with a limit")
        spec = spec_of(eng, s.t, {})
        if None in spec:
            return eng.alloc(HList(spec_segs(eng, spec[None])))
        return eng.alloc(HList([tokens(eng, s)]))
    if isinstance(s, Sym):
        spec = spec_of(eng, s.t, {})
        if sep in spec and mx == -1:
            return eng.alloc(HList(spec_segs(eng, spec[sep])))
    if not (isinstance(sep, str) and len(sep) == 1) or not isinstance(mx, int):
        if isinstance(sep, str) and sep == "":
            eng.throw("ValueError", "empty separator")
        raise Unsupported("split of %r by %r" % (s, sep))
    out = []
    rest = parts_of(s)
    while mx < 0 or len(out) < mx:
        if mx < 0 and len(out) >= eng.split_limit and any(not isinstance(p, str) for p in rest):
            r = split_once(eng, rest, sep)
            if r is None:
                break
            out.append(value(r[0]))
            b = eng.raw_base("pieces", "str", lo=1)
            return eng.alloc(HList([out, b]))
        r = split_once(eng, rest, sep)
        if r is None:
            break
        out.append(value(r[0]))
        rest = r[1]
    out.append(value(rest))
    return eng.alloc(HList([out]))


def spec_segs(eng, segs):
    if callable(segs):
        segs = segs(eng)
    return [list(x) if isinstance(x, list) else x for x in segs]


def value(parts):
    return unflat(join_lits(parts))


def tokens(eng, s):
    b = eng.tokbases.get(s.t.sexpr())
    if b is None:
        n = NTOK(s.t)
        b = Base("tokens", n, lambda e, i, t=s.t: Sym("str", TOK(t, zi(i))), scalar="str")
        eng.tokbases[s.t.sexpr()] = b
    eng.assume(NTOK(s.t) >= 0)
    return b


def s_strip(which):
    fn = {"strip": STRIP, "lstrip": LSTRIP, "rstrip": RSTRIP}[which]

    def f(eng, a, kw):
        s = a[0]
        chars = a[1] if len(a) > 1 else None
        if isinstance(s, str) and (chars is None or isinstance(chars, str)):
            return getattr(s, which)(chars)
        if chars is not None:
            raise Unsupported("strip of characters")
        parts = parts_of(s)
        lo = which == "rstrip" or solid_edge(eng, parts[0], 0)
        hi = which == "lstrip" or solid_edge(eng, parts[-1], -1)
        if lo and hi:
            return s
        return Sym("str", fn(s.t))
    return f


def solid_edge(eng, p, k):
    if isinstance(p, str):
        return p[k] not in SPACE
    d = p.decl() if z3.is_app(p) else None
    if d is not None and (d.eq(STR_INT) or d.eq(STR_REAL) or d.eq(STRIP) or d.eq(TOK)):
        return not d.eq(STRIP) or k is not None
    spec = spec_of(eng, p, {})
    return bool(spec.get("solid"))


def join_segs(eng, sep, segs):
    """A string that split(sep) takes apart again: no item contains sep."""
    def clean(x):
        return is_str(x) and all(sep not in p if isinstance(p, str) else sym_has(eng, p, sep) is False for p in parts_of(x))
    for s in segs:
        if isinstance(s, list):
            ok = all(clean(x) for x in s)
        else:
            ix = z3.Int(eng.name("ix"))
            got = [True]

            def one():
                eng.assume(z3.And(ix >= 0, ix < zi((s.base if isinstance(s, Comp) else s).n)))
                for x in eng.iter_values(s, ix):
                    got[0] = got[0] and clean(x)
            eng.explore(one)
            ok = got[0]
        if not ok:
            raise Unsupported("join of a symbolic list of strings that may contain the separator")
    r = eng.fresh("str", "joined")
    eng.strspec[r.t.sexpr()] = {sep: lambda e: segs if e.branch(zi(e.segs_len(segs)) > 0) else [[""]]}
    return r


def s_join(eng, a, kw):
    sep, it = a
    items = eng.concrete_items(it)
    if items is None:
        acc = []
        if isinstance(it, LazyIter) or isinstance(it, Ref) and isinstance(eng.obj(it), HGen):
            r = eng.alloc(HList([]))
            eng.iterate(it, lambda v: eng.list_append(r, v))
            items = eng.concrete_items(r)
    if items is None and isinstance(it, Ref) and isinstance(eng.obj(it), HList) and isinstance(sep, str) and len(sep) == 1:
        return join_segs(eng, sep, eng.norm_segs(eng.obj(it).segs))
    if items is None:
        raise Unsupported("join of a symbolic list")
    out = ""
    for k, x in enumerate(items):
        if not is_str(x):
            eng.throw("TypeError", "sequence item: expected string")
        if k:
            out = concat(out, sep)
        out = concat(out, x)
    return out


def s_encode(eng, a, kw):
    s = a[0]
    enc = a[1] if len(a) > 1 else kw.get("encoding", "ascii")
    if isinstance(s, str) and all(ord(c) < 128 for c in s):
        return s
    if not isinstance(enc, str) or enc.lower() not in ("utf-8", "utf8"):
        raise Unsupported("encoding %r" % (enc,))
    return value([p if isinstance(p, str) else utf8_part(eng, p) for p in parts_of(s)])


def utf8_part(eng, p):
    d = p.decl() if z3.is_app(p) else None
    if d is not None and (d.eq(STR_INT) or d.eq(STR_REAL)):
        return p
    if spec_of(eng, p, {}).get("ascii"):
        return p
    u = UTF8(p)
    eng.assume((p == z3.StringVal("")) == (u == z3.StringVal("")))
    return u


def s_startswith(eng, a, kw):
    s, p = a[0], a[1]
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(p, tuple):
        return eng.mk(Or(*[eng.truth(s_startswith(eng, [s, x], {})) for x in p]))
    ps = parts_of(s)
    if isinstance(p, str) and ps and isinstance(ps[0], str):
        k = min(len(p), len(ps[0]))
        if ps[0][:k] != p[:k]:
            return False
        if len(p) <= len(ps[0]):
            return True
    return eng.mk(z3.PrefixOf(zs(p), zs(s)))


def s_endswith(eng, a, kw):
    s, p = a[0], a[1]
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    if isinstance(p, tuple):
        return eng.mk(Or(*[eng.truth(s_endswith(eng, [s, x], {})) for x in p]))
    ps = parts_of(s)
    if isinstance(p, str) and ps and isinstance(ps[-1], str):
        k = min(len(p), len(ps[-1]))
        if k and ps[-1][-k:] != p[-k:]:
            return False
        if len(p) <= len(ps[-1]):
            return True
    return eng.mk(z3.SuffixOf(zs(p), zs(s)))


def s_simple(fn, name):
    def f(eng, a, kw):
        if isinstance(a[0], str):
            return getattr(a[0], name)()
        return Sym("str", fn(a[0].t))
    return f


def s_replace(eng, a, kw):
    if all(isinstance(x, str) for x in a[:3]) and len(a) == 3:
        return a[0].replace(a[1], a[2])
    if len(a) == 3 and isinstance(a[1], str) and isinstance(a[2], str):
        return eng.rx_sub_value(pyre.escape(a[1]), a[2].replace("\\", "\\\\"), a[0])
    raise Unsupported("replace")


def s_concrete(name):
    def f(eng, a, kw):
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in a) and not kw:
            r = getattr(a[0], name)(*a[1:])
            if isinstance(r, list):
                return eng.alloc(HList([r]))
            return r
        raise Unsupported("str.%s of a symbolic string" % name)
    return f


def s_partition(eng, a, kw):
    s, sep = a
    if isinstance(s, str) and isinstance(sep, str):
        return s.partition(sep)
    if isinstance(sep, str) and len(sep) == 1:
        r = split_once(eng, parts_of(s), sep)
        if r is None:
            return (s, "", "")
        return (value(r[0]), sep, value(r[1]))
    raise Unsupported("partition")


def s_splitlines(eng, a, kw):
    if isinstance(a[0], str):
        return eng.alloc(HList([a[0].splitlines()]))
    spec = spec_of(eng, a[0].t, {})
    if "lines" in spec:
        return eng.alloc(HList(spec_segs(eng, spec["lines"])))
    raise Unsupported("splitlines")


def s_count(eng, a, kw):
    if isinstance(a[0], str) and isinstance(a[1], str):
        return a[0].count(a[1])
    raise Unsupported("str.count")


def s_find(eng, a, kw):
    if isinstance(a[0], str) and isinstance(a[1], str):
        return a[0].find(*a[1:])
    s, sep = a[0], a[1]
    if len(a) == 2 and isinstance(sep, str) and len(sep) == 1:
        r = split_once(eng, parts_of(s), sep)
        return -1 if r is None else eng.length(value(r[0]))
    raise Unsupported("str.find")


STR = {"split": s_split, "strip": s_strip("strip"), "lstrip": s_strip("lstrip"), "rstrip": s_strip("rstrip"),
       "join": s_join, "encode": s_encode, "startswith": s_startswith, "endswith": s_endswith,
       "lower": s_simple(LOWER, "lower"), "upper": s_simple(UPPER, "upper"), "replace": s_replace,
       "partition": s_partition, "splitlines": s_splitlines, "count": s_count, "find": s_find}
for _n in ("isdigit", "isalpha", "isalnum", "isspace", "index", "rfind", "rsplit", "rpartition", "title",
           "capitalize", "zfill", "ljust", "rjust", "center"):
    STR[_n] = s_concrete(_n)
STR["format"] = lambda eng, a, kw: s_format(eng, a, kw)


def s_format(eng, a, kw):
    f = a[0]
    if not isinstance(f, str):
        raise Unsupported("symbolic format string")
    out = ""
    auto = 0
    pos = 0
    for m in pyre.finditer(r"\{\{|\}\}|\{([^{}:!]*)\}", f):
        out = concat(out, f[pos:m.start()])
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            out = concat(out, m.group(0)[0])
            continue
        n = m.group(1)
        if n == "":
            v = a[1 + auto]
            auto += 1
        elif n.isdigit():
            v = a[1 + int(n)]
        elif n in kw:
            v = kw[n]
        else:
            raise Unsupported("format %r" % f)
        out = concat(out, eng.to_str(v))
    rest = f[pos:]
    if "{" in rest or "}" in rest:
        raise Unsupported("format %r" % f)
    return concat(out, rest)


# lists -----------------------------------------------------------------------------------------------------------
def l_insert(eng, a, kw):
    ref, i, v = a
    o = eng.obj(ref)
    n = eng.segs_len(o.segs)
    k = eng.clamp(n, i, 0)
    if isinstance(k, int) and k == 0:
        o.segs = eng.norm_segs([[v]] + o.segs)
        return None
    if isinstance(n, int) and isinstance(k, int) and eng.concrete_items(ref) is not None:
        items = eng.concrete_items(ref)
        items.insert(k, v)
        o.segs = [items]
        return None
    if eng.branch(zi(k) == zi(n)):
        eng.list_append(ref, v)
        return None
    before, x, after = eng.split_at(eng.norm_segs(o.segs), k)
    eng.obj(ref).segs = eng.norm_segs(before + [[v, x]] + after)


def l_remove(eng, a, kw):
    ref, v = a
    items = eng.concrete_items(ref)
    if items is None:
        raise Unsupported("remove from a symbolic list")
    for k, x in enumerate(items):
        if eng.branch(eng.eq(x, v)):
            eng.obj(ref).segs = [items[:k] + items[k + 1:]]
            return None
    eng.throw("ValueError", "not in list")


def l_index(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        raise Unsupported("index in a symbolic list")
    for k, x in enumerate(items):
        if eng.branch(eng.eq(x, a[1])):
            return k
    eng.throw("ValueError", "not in list")


def l_sort(eng, a, kw):
    key = kw.get("key")
    if len(a) > 1 or "cmp" in kw:
        raise Unsupported("sort with cmp")
    eng.sort_list(a[0], key, eng.branch(eng.truth(kw.get("reverse", False))))


def l_reverse(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        raise Unsupported("reverse of a symbolic list")
    eng.obj(a[0]).segs = [items[::-1]]


def l_clear(eng, a, kw):
    eng.obj(a[0]).segs = []


def l_count(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        raise Unsupported("count in a symbolic list")
    return sum(1 for x in items if eng.branch(eng.eq(x, a[1])))


LIST = {"append": lambda e, a, k: e.list_append(*a), "extend": lambda e, a, k: e.list_extend(*a),
        "pop": lambda e, a, k: e.list_pop(*a), "insert": l_insert, "remove": l_remove, "index": l_index,
        "sort": l_sort, "reverse": l_reverse, "count": l_count}
DEQUE = {"append": LIST["append"], "extend": LIST["extend"], "pop": lambda e, a, k: e.list_pop(a[0]),
         "popleft": lambda e, a, k: e.list_pop(a[0], 0), "clear": l_clear,
         "appendleft": lambda e, a, k: l_insert(e, [a[0], 0, a[1]], k), "remove": l_remove, "count": l_count}


# dicts -----------------------------------------------------------------------------------------------------------
def d_get(eng, a, kw):
    return eng.dict_get(a[0], a[1], a[2] if len(a) > 2 else kw.get("default"))


def d_setdefault(eng, a, kw):
    e = eng.dict_find(a[0], a[1])
    if e is not None:
        return e[1]
    v = a[2] if len(a) > 2 else None
    eng.dict_set(a[0], a[1], v)
    return v


def d_pop(eng, a, kw):
    e = eng.dict_find(a[0], a[1])
    if e is None:
        if len(a) > 2:
            return a[2]
        eng.throw("KeyError", a[1])
    v = e[1]
    e[1] = ABSENT
    return v


def d_list(what, lazy=False):
    def f(eng, a, kw):
        if lazy:
            ref = a[0]

            def run(e, cb):
                e.iterate_segs(e.dict_segs(ref, what), cb, src=ref)
            it = LazyIter(run, "iter" + what)
            it.of_dict = (ref, what)
            return it
        return eng.alloc(HList(eng.dict_segs(a[0], what)))
    return f


def d_clear(eng, a, kw):
    o = eng.obj(a[0])
    o.entries, o.rest, o.comps = [], None, []


def d_copy(eng, a, kw):
    return eng.alloc(eng.obj(a[0]).clone())


def d_update(eng, a, kw):
    if len(a) > 1:
        eng.dict_update(a[0], a[1])
    for k, v in kw.items():
        eng.dict_set(a[0], k, v)


def d_fromkeys(eng, a, kw):
    d = eng.alloc(HDict([]))
    v = a[1] if len(a) > 1 else None
    eng.iterate(a[0], lambda k: eng.dict_set(d, k, v))
    return d


def type_method(eng, t, name):
    """An attribute of a built-in type or function: dict.fromkeys, str.strip, ..."""
    if (t, name) == ("dict", "fromkeys"):
        return Builtin("fromkeys", d_fromkeys)
    if t in ("dict", "list", "set", "str") and name in TABLES[t]:
        return Builtin(name, TABLES[t][name])
    pub = {"list": list, "dict": dict, "set": set, "str": str, "frozenset": frozenset, "int": int, "float": float, "unicode": str, "tuple": tuple,
           "object": object}.get(t)
    if pub is not None and hasattr(pub, name):
        raise Unsupported("%s.%s" % (t, name))
    return ABSENT


DICT = {"get": d_get, "setdefault": d_setdefault, "update": d_update, "keys": d_list("keys"),
        "values": d_list("values"), "items": d_list("items"), "iterkeys": d_list("keys", True),
        "itervalues": d_list("values", True), "iteritems": d_list("items", True), "pop": d_pop, "clear": d_clear,
        "copy": d_copy, "has_key": lambda e, a, k: e.dict_contains(a[0], a[1])}


def set_update(eng, a, kw):
    for it in a[1:]:
        eng.set_add_all(a[0], it)


def set_union(eng, a, kw):
    r = eng.alloc(eng.obj(a[0]).clone())
    set_update(eng, [r] + list(a[1:]), kw)
    return r


def set_remove(eng, a, kw):
    eng.dict_del(a[0], a[1])


def set_discard(eng, a, kw):
    e = eng.dict_find(a[0], a[1])
    if e is not None:
        e[1] = ABSENT


SET = {"add": lambda e, a, k: e.set_add(a[0], a[1]), "update": set_update, "remove": set_remove,
       "discard": set_discard, "clear": d_clear, "copy": d_copy, "union": set_union}


def it_next(eng, a, kw):
    r = a[0]
    if isinstance(r, Ref):
        o = eng.obj(r)
        if isinstance(o, HGen):
            return eng.gen_next(r)
        if isinstance(o, HIter):
            if o.pos >= len(o.items):
                eng.throw("StopIteration", "")
            o.pos += 1
            return o.items[o.pos - 1]
    raise Unsupported("next of %r" % (r,))


ITER = {"next": it_next, "__iter__": lambda e, a, k: a[0]}
TABLES = {"list": LIST, "deque": DEQUE, "dict": DICT, "set": SET, "str": STR, "iter": ITER,
          "gen": dict(ITER, close=lambda e, a, k: None)}


def method(eng, kind, v, name):
    f = TABLES.get(kind, {}).get(name)
    if f is not None:
        return BoundM(v, Builtin(name, f))
    if name == "__iter__" and kind != "str":
        return BoundM(v, Builtin("__iter__", lambda e, a, k: v))
    pub = {"list": list, "dict": dict, "set": set, "str": str}.get(kind)
    if pub is not None and hasattr(pub, name) or kind == "deque":
        raise Unsupported("%s.%s" % (kind, name))
    return ABSENT


# builtins ----------------------------------------------------------------------------------------------------------
def b_len(eng, a, kw):
    return eng.length(a[0])


def length(eng, v):
    if isinstance(v, str) or isinstance(v, tuple):
        return len(v)
    if isinstance(v, Sym) and v.kind == "str":
        return lift("int", z3.simplify(z3.Length(v.t)))
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, HList):
            return eng.list_len(v)
        if isinstance(o, HDict):
            return eng.dict_len(v)
        if isinstance(o, HInst):
            m = eng.class_lookup(o.cls, "__len__")
            if m is not None:
                return eng.call(eng.bind(m, v, o.cls), [], {})
    if isinstance(v, Stub) and "__len__" in v.attrs:
        return v.attrs["__len__"](eng, [], {})
    if v is None or is_num(v):
        eng.throw("TypeError", "object has no len()")
    raise Unsupported("len of %r" % (v,))


def to_list(eng, v):
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, HList):
            return eng.alloc(HList(o.clone().segs))
        if isinstance(o, HDict):
            return eng.alloc(HList(eng.dict_segs(v, "keys")))
    if isinstance(v, LazyIter) and v.of_dict is not None:
        return eng.alloc(HList(eng.dict_segs(*v.of_dict)))
    r = eng.alloc(HList([]))
    eng.iterate(v, lambda x: eng.list_append(r, x))
    return r


def b_list(eng, a, kw):
    return to_list(eng, a[0]) if a else eng.alloc(HList([]))


def b_tuple(eng, a, kw):
    if not a:
        return ()
    items = eng.concrete_items(a[0])
    if items is None:
        items = eng.concrete_items(to_list(eng, a[0]))
    if items is None:
        raise Unsupported("tuple of symbolic length")
    return tuple(items)


def b_dict(eng, a, kw):
    d = eng.alloc(HDict([]))
    if a:
        eng.dict_update(d, a[0])
    for k, v in kw.items():
        eng.dict_set(d, k, v)
    return d


def b_set(eng, a, kw):
    d = eng.alloc(HDict([], kind="set"))
    if a:
        eng.set_add_all(d, a[0])
        if isinstance(a[0], Ref) and isinstance(eng.obj(a[0]), HList) and eng.obj(d).comps and not eng.obj(d).entries:
            # until something is written into it, it holds what the list holds now
            eng.obj(d).members = (list(eng.obj(d).comps), list(eng.obj(a[0]).segs))
    return d


def b_sorted(eng, a, kw):
    r = to_list(eng, a[0])
    l_sort(eng, [r], kw)
    return r


def b_range(eng, a, kw):
    if len(a) == 3:
        if all(isinstance(x, int) for x in a):
            return eng.alloc(HList([list(range(*a))]))
        raise Unsupported("range with a step")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    if isinstance(lo, int) and isinstance(hi, int):
        if hi - lo <= 4096 and (hi - lo <= 64 or not eng.symbolic_ranges):
            return eng.alloc(HList([list(range(lo, hi))]))
    for x in (lo, hi):
        if not is_int(x):
            eng.throw("TypeError", "range() integer argument expected")
    n = z3.simplify(zi(hi) - zi(lo))
    if not eng.branch(n > 0):
        return eng.alloc(HList([]))
    key = ("range", zi(lo).sexpr(), n.sexpr())
    b = eng.rangebases.get(key)
    if b is None:
        b = Base("range", n, lambda e, i: lift("int", z3.simplify(zi(i) + zi(lo))), scalar="int")
        b.is_range = True
        eng.rangebases[key] = b
    return eng.alloc(HList([b]))


def b_enumerate(eng, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    src = a[0]
    if not (isinstance(src, Ref) and isinstance(eng.obj(src), (HList, HDict))) and not isinstance(src, tuple):
        src = to_list(eng, src)
    if isinstance(src, tuple):
        segs = [list(src)]
    elif isinstance(eng.obj(src), HDict):
        segs = eng.dict_segs(src, "keys")
    else:
        segs = eng.norm_segs(eng.obj(src).segs)
    out = []
    off = start
    for s in segs:
        if isinstance(s, list):
            out.append([(eng.arith("Add", off, k), v) for k, v in enumerate(s)])
            off = eng.arith("Add", off, len(s))
        elif isinstance(s, Base):
            ix = z3.Int(eng.name("ix"))
            out.append(Comp(s, ix, [([], [], [(eng.arith("Add", off, Sym("int", ix)), BaseElem(s, ix))])]))
            off = eng.arith("Add", off, lift("int", z3.simplify(zi(s.n))))
        else:
            one = all(len(items) == 1 for _, _, items in s.cases) and not getattr(s, "excl", ())
            if not one:
                raise Unsupported("enumerate of %r" % s)
            out.append(Comp(s.base, s.ix, [(cs, as_, [(eng.arith("Add", off, Sym("int", s.ix)), items[0])])
                                           for cs, as_, items in s.cases]))
            off = eng.arith("Add", off, lift("int", z3.simplify(zi(s.base.n))))
    return eng.alloc(HList(out))


def b_zip(eng, a, kw):
    lists = [eng.concrete_items(x) for x in a]
    if all(x is not None for x in lists):
        return eng.alloc(HList([list(zip(*lists))]))
    refs = [x if isinstance(x, (tuple,)) or isinstance(x, Ref) and isinstance(eng.obj(x), HList) else to_list(eng, x)
            for x in a]
    lens = [eng.length(x) for x in refs]
    if any(isinstance(n, int) for n in lens):
        m = min(n for n in lens if isinstance(n, int))
        out = []
        for k in range(m):
            if not all(eng.branch(zi(n) > k) for n in lens):
                break
            out.append(tuple(eng.getitem(r, k) for r in refs))
        return eng.alloc(HList([out]))
    segs = [eng.norm_segs(eng.obj(r).segs) for r in refs]
    if all(len(s) == 1 and isinstance(s[0], Base) for s in segs):
        n = zi(segs[0][0].n)
        for s in segs[1:]:
            if not eng.branch(zi(s[0].n) == n):
                raise Unsupported("zip of symbolic lists of different lengths")
        ix = z3.Int(eng.name("ix"))
        return eng.alloc(HList([Comp(segs[0][0], ix, [([], [], [tuple(BaseElem(s[0], ix) for s in segs)])])]))
    return zip_segs(eng, segs)


def zip_segs(eng, lists):
    """zip of lists made of several parts: cut into pieces that lie within one part of each list."""
    for segs in lists:
        for s in segs:
            if not isinstance(s, (list, Base)) and (getattr(s, "excl", ()) or type(s) is not Comp or len(s.cases) != 1
                                                    or len(s.cases[0][2]) != 1 or isinstance(s.cases[0][2][0], (TObj, Nested))):
                raise Unsupported("zip of %r" % s)
    lists = [[(s, 0) for s in segs] for segs in lists]
    out = []

    def left(h):
        s, off = h
        n = len(s) if isinstance(s, list) else s.n if isinstance(s, Base) else s.base.n
        return n - off if isinstance(n, int) and isinstance(off, int) else z3.simplify(zi(n) - zi(off))

    def part(b, off, m):
        return eng.sub_base(b, off, z3.simplify(zi(off) + zi(m)))

    def moved(v, old, i, off, m):
        if isinstance(v, BaseElem):
            return BaseElem(part(v.b, off, m), i)
        if isinstance(v, tuple):
            return tuple(moved(x, old, i, off, m) for x in v)
        return eng.subst(v, old, z3.simplify(i + zi(off)))

    def at(h, i, m):
        """The element that is i after the first, of m."""
        s, off = h
        if isinstance(s, list):
            return s[off]
        if isinstance(s, Base):
            return eng.elem(s, z3.simplify(zi(off))) if m == 1 else BaseElem(part(s, off, m), i)
        if m == 1:
            return eng.comp_items(s, z3.simplify(zi(off)))[0]
        return moved(s.cases[0][2][0], s.ix, i, off, m)
    while True:
        for segs in lists:
            while segs and (left(segs[0]) == 0 if isinstance(left(segs[0]), int) else eng.branch(left(segs[0]) == 0)):
                segs.pop(0)
        if not all(lists):
            return eng.alloc(HList(eng.norm_segs(out)))
        heads = [segs[0] for segs in lists]
        if any(isinstance(s, list) for s, _ in heads):
            m = 1
            out.append([tuple(at(h, 0, 1) for h in heads)])
        else:
            first = heads[0]
            for h in heads[1:]:
                if eng.branch(zi(left(h)) < zi(left(first))):
                    first = h
            m = left(first)
            s, off = first
            ix = z3.Int(eng.name("ix"))
            base = s if isinstance(s, Base) else s.base
            as_ = []
            for h, o in heads:
                if not isinstance(h, Base):
                    if h.cases[0][0]:
                        raise Unsupported("zip of %r" % h)
                    as_ += [eng.sub(x, h.ix, z3.simplify(ix + zi(o))) for x in h.cases[0][1]]
            out.append(Comp(eng.sub_base(base, off, z3.simplify(zi(off) + zi(m))), ix, [([], as_, [tuple(at(h, ix, m) for h in heads)])]))
        for segs in lists:
            s, off = segs[0]
            segs[0] = (s, off + m if isinstance(off, int) and isinstance(m, int) else z3.simplify(zi(off) + zi(m)))


def b_map(eng, a, kw):
    f = a[0]
    if len(a) != 2:
        raise Unsupported("map of several lists")
    r = eng.alloc(HList([]))
    eng.iterate(a[1], lambda v: eng.list_append(r, v if f is None else eng.call(f, [v], {})))
    return r


def b_filter(eng, a, kw):
    r = eng.alloc(HList([]))

    def cb(v):
        if eng.branch(eng.truth(v if a[0] is None else eng.call(a[0], [v], {}))):
            eng.list_append(r, v)
    eng.iterate(a[1], cb)
    return r


def extreme(eng, a, kw, less):
    if kw:
        raise Unsupported("min/max with a key")
    if len(a) > 1:
        items = a
    else:
        v = a[0]
        if not (isinstance(v, tuple) or isinstance(v, Ref) and isinstance(eng.obj(v), HList)):
            v = to_list(eng, v)
        items = eng.concrete_items(v)
        if items is None:
            return seq_extreme(eng, v, less)
        if not items:
            eng.throw("ValueError", "empty sequence")
    best = items[0]
    for x in items[1:]:
        if eng.branch(less(x, best)):
            best = x
    return best


def seq_extreme(eng, ref, less):
    """min or max of a symbolic list: one of its elements, and none is beyond it."""
    if not eng.branch(eng.truth(ref)):
        eng.throw("ValueError", "empty sequence")
    segs = eng.norm_segs(eng.obj(ref).segs)
    if len(segs) != 1:
        best = None
        for s in segs:
            if isinstance(s, list):
                xs = s
            else:
                if not eng.branch(zi(s.n) > 0):
                    continue
                xs = [seq_extreme(eng, eng.alloc(HList([s])), less)]
            for x in xs:
                if best is None or eng.branch(less(x, best)):
                    best = x
        return best
    b = eng.as_base(segs)
    ismin = less == eng.lt
    if getattr(b.root, "of", None) is not None and b.root.scalar in ("int", "float") and b.root.pairs:
        return eng.elem(b, 0 if ismin else z3.simplify(zi(b.n) - 1))        # (sorted_base)
    known = eng.basefacts.setdefault(("extreme", b.root.id, str(b.off), str(b.n), ismin), [])
    if known:
        return known[0]
    k = eng.fresh("int", "argmin" if ismin else "argmax").t
    eng.assume(z3.And(k >= 0, k < zi(b.n)))
    m = eng.elem(b, k)
    mt = m.t if isinstance(m, Sym) else zr(m)

    def fact(e, i, v):
        vt = v.t if isinstance(v, Sym) else (zr(v) if is_float(m) else zi(v))
        c = vt >= mt if ismin else vt <= mt
        if b.root is b:
            return [c]
        return [z3.Implies(z3.And(i >= zi(b.off), i < zi(b.off) + zi(b.n)), c)]
    eng.basefacts.setdefault(b.root.id, []).append(fact)
    for t, v in list(eng.inst.get(b.root.id, ())):
        for c in fact(eng, t, v):
            eng.assume(c)
    known.append(m)
    return m


def b_sum(eng, a, kw):
    v = a[0]
    if not (isinstance(v, tuple) or isinstance(v, Ref) and isinstance(eng.obj(v), HList)):
        v = to_list(eng, v)
    return eng.sum_list(v, a[1] if len(a) > 1 else 0)


def b_int(eng, a, kw):
    if not a:
        return 0
    if len(a) == 2:
        if isinstance(a[0], str) and isinstance(a[1], int):
            try:
                return int(a[0], a[1])
            except ValueError:
                eng.throw("ValueError", "int")
        if isinstance(a[0], Sym) and a[0].kind == "str" and a[1] == 16:
            t = INT16(a[0].t)
            eng.assume(t >= 0)
            return Sym("int", t)
        raise Unsupported("int with a base")
    v = a[0]
    if isinstance(v, (Stub, ExtV)) and isinstance(v, Stub) and "__int__" in v.attrs:
        return v.attrs["__int__"](eng, [], {})
    if v is None or isinstance(v, tuple):
        eng.throw("TypeError", "int() argument")
    return eng.to_int(v)


def b_float(eng, a, kw):
    if not a:
        return Fraction(0)
    if a[0] is None or isinstance(a[0], (tuple, Ref)):
        eng.throw("TypeError", "float() argument")
    return eng.to_float(a[0])


def b_str(eng, a, kw):
    return eng.to_str(a[0]) if a else ""


def b_bool(eng, a, kw):
    return eng.mk(eng.truth(a[0])) if a else False


def b_round(eng, a, kw):
    if not is_num(a[0]):
        eng.throw("TypeError", "a float is required")
    return eng.round_(a[0], a[1] if len(a) > 1 else kw.get("ndigits", 0))


def b_abs(eng, a, kw):
    v = a[0]
    if eng.branch(eng.lt(v, 0)):
        return eng.neg(v)
    return v


def b_any(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        items = eng.concrete_items(to_list(eng, a[0]))
    if items is None:
        raise Unsupported("any/all of a symbolic sequence")
    for x in items:
        if eng.branch(eng.truth(x)):
            return True
    return False


def b_all(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        items = eng.concrete_items(to_list(eng, a[0]))
    if items is None:
        raise Unsupported("any/all of a symbolic sequence")
    for x in items:
        if not eng.branch(eng.truth(x)):
            return False
    return True


TYPES = {"str": is_str, "basestring": is_str, "unicode": is_str,
         "int": lambda v: is_int(v) or is_boolv(v), "long": lambda v: is_int(v) or is_boolv(v),
         "float": lambda v: is_float(v) or isinstance(v, NonFin), "bool": is_boolv,
         "tuple": lambda v: isinstance(v, tuple)}


def b_isinstance(eng, a, kw):
    v, c = a
    if isinstance(c, tuple):
        return any(b_isinstance(eng, [v, x], kw) for x in c)
    if isinstance(c, Builtin):
        if c.name in TYPES:
            if isinstance(v, Sym) and v.kind == "obj":
                raise Unsupported("isinstance of an opaque value")
            return TYPES[c.name](v)
        if isinstance(v, Ref):
            o = eng.obj(v)
            if c.name == "object":
                return True
            if isinstance(o, (HList, HDict)):
                return o.kind == c.name
            return False
        return c.name == "object"
    if isinstance(c, ClassV):
        return isinstance(v, Ref) and isinstance(eng.obj(v), HInst) and c in eng.obj(v).cls.mro
    if isinstance(c, ExtV):
        if isinstance(v, Stub):
            return eng.branch(eng.truth(v.attrs["isinstance"](eng, [c.path], {}))) if "isinstance" in v.attrs else False
        if isinstance(v, Ref) and isinstance(eng.obj(v), HInst):
            return c in eng.obj(v).cls.mro
        return False
    raise Unsupported("isinstance of %r" % (c,))


def named_attr(eng, v, name, default):
    """getattr with a name that is not known: any of the attributes there are, or none."""
    parts = parts_of(name)
    if not (isinstance(v, Ref) and isinstance(eng.obj(v), HInst)) or not isinstance(parts[0], str) or parts[0][:1] in ("", "_"):
        raise Unsupported("getattr with a symbolic name")
    o = eng.obj(v)
    names = set(o.attrs)
    for c in o.cls.mro:
        if isinstance(c, ClassV):
            names |= set(eng.obj(c.env).attrs)
            if eng.class_lookup(c, "__getattr__") is not None:
                raise Unsupported("getattr with a symbolic name, with __getattr__")
        elif getattr(c, "name", None) != "object":
            raise Unsupported("getattr with a symbolic name, of a class from outside")
    for n in sorted(names):
        if n.startswith(parts[0]) and eng.branch(eng.eq(name, n)):
            return eng.getattr_(v, n)
    if default is ABSENT:
        eng.throw("AttributeError", "no such attribute")
    return default


def b_getattr(eng, a, kw):
    if not isinstance(a[1], str):
        h = getattr(eng, "sym_getattr", None)
        if h is not None:
            return h(eng, a)
        return named_attr(eng, a[0], a[1], a[2] if len(a) > 2 else ABSENT)
    return eng.getattr_(a[0], a[1], a[2] if len(a) > 2 else ABSENT)


def b_hasattr(eng, a, kw):
    return eng.lookup_attr(a[0], a[1]) is not ABSENT


def b_callable(eng, a, kw):
    v = a[0]
    if isinstance(v, (Func, BoundM, Builtin, ClassV, Partial)):
        return True
    if isinstance(v, Stub):
        return v.call is not None
    if isinstance(v, Ref) and isinstance(eng.obj(v), HInst):
        return eng.class_lookup(eng.obj(v).cls, "__call__") is not None
    if isinstance(v, ExtV) or isinstance(v, Sym) and v.kind == "obj":
        raise Unsupported("callable(%r)" % (v,))
    return False


def b_iter(eng, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(eng.obj(v), (HGen, HIter)):
        return v
    items = eng.concrete_items(v)
    if items is None:
        if isinstance(v, Ref) and isinstance(eng.obj(v), HDict) and eng.obj(v).rest is None and not eng.obj(v).comps:
            items = [e[0] for e in eng.live(eng.obj(v))]
        else:
            raise Unsupported("iter() of a symbolic sequence")
    return eng.alloc(HIter(items))


def b_next(eng, a, kw):
    try:
        return it_next(eng, a[:1], kw)
    except PyExc as e:
        if len(a) > 1 and e.cls.name == "StopIteration":
            return a[1]
        raise


def b_ord(eng, a, kw):
    if isinstance(a[0], str):
        if len(a[0]) != 1:
            eng.throw("TypeError", "ord() expected a character")
        return ord(a[0])
    t = z3.StrToCode(zs(a[0]))
    eng.assume(z3.And(t >= 0, t < 256))
    return Sym("int", t)


def b_repr(eng, a, kw):
    return eng.format1("", "r", a[0])


def b_type(eng, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(eng.obj(v), HInst):
        return eng.obj(v).cls
    for n, f in TYPES.items():
        if f(v) and n in ("str", "bool", "float", "int", "tuple"):
            return eng.builtins[n]
    raise Unsupported("type()")


def b_reversed(eng, a, kw):
    items = eng.concrete_items(a[0])
    if items is None:
        raise Unsupported("reversed of a symbolic sequence")
    return eng.alloc(HList([items[::-1]]))


def descr(kind):
    return lambda eng, a, kw: Descr(kind, a[0])


BUILTINS = {"len": b_len, "list": b_list, "tuple": b_tuple, "dict": b_dict, "set": b_set, "frozenset": b_set,
            "sorted": b_sorted, "range": b_range, "xrange": b_range, "enumerate": b_enumerate, "zip": b_zip,
            "map": b_map, "filter": b_filter,
            "min": lambda e, a, k: extreme(e, a, k, e.lt),
            "max": lambda e, a, k: extreme(e, a, k, e.gt),
            "sum": b_sum, "int": b_int, "long": b_int, "float": b_float, "str": b_str, "unicode": b_str,
            "bool": b_bool, "round": b_round, "abs": b_abs, "any": b_any, "all": b_all, "isinstance": b_isinstance,
            "getattr": b_getattr, "hasattr": b_hasattr, "callable": b_callable, "iter": b_iter, "next": b_next,
            "ord": b_ord, "repr": b_repr, "type": b_type, "reversed": b_reversed,
            "property": descr("property"), "classmethod": descr("classmethod"), "staticmethod": descr("staticmethod"),
            "basestring": b_str, "object": lambda e, a, k: e.alloc(HInst(e.object_class, {})),
            "setattr": lambda e, a, k: e.setattr_(a[0], a[1], a[2]), "id": lambda e, a, k: e.fresh("int", "id")}


# standard library ---------------------------------------------------------------------------------------------------
def m_floor(eng, a, kw):
    return eng.to_float(eng.floor(eng.to_float(a[0])))


def m_ceil(eng, a, kw):
    x = eng.to_float(a[0])
    return eng.to_float(eng.neg(eng.floor(eng.neg(x))))


def m_trunc(eng, a, kw):
    if not is_num(a[0]):
        eng.throw("TypeError", "a float is required")
    return eng.trunc(a[0])


def m_sqrt(eng, a, kw):
    x = eng.to_float(a[0])
    if eng.branch(eng.lt(x, 0)):
        eng.throw("ValueError", "math domain error")
    if not isinstance(x, Sym) and x == 0:
        return Fraction(0)
    r = SQRT(zr(x))
    eng.assume(z3.And(r >= 0, r * r == zr(x), z3.Implies(zr(x) == 0, r == 0)))
    return Sym("float", r)


def m_exp(eng, a, kw):
    x = zr(eng.to_float(a[0]))
    r = EXP(x)
    eng.assume(z3.And(r > 0, z3.Implies(x > 0, r > 1), z3.Implies(x < 0, r < 1), z3.Implies(x == 0, r == 1)))
    return Sym("float", r)


def m_log(eng, a, kw):
    x = eng.to_float(a[0])
    if len(a) == 2 and a[1] == 2:
        if not eng.branch(eng.lt(0, x)):
            eng.throw("ValueError", "math domain error")
        r = LOG2(zr(x))
        eng.assume(z3.And(z3.Implies(zr(x) >= 1, r >= 0), z3.Implies(zr(x) == 1, r == 0)))
        return Sym("float", r)
    raise Unsupported("log")


def m_isnan(eng, a, kw):
    return isinstance(a[0], NonFin) and a[0].name == "nan"


def m_isinf(eng, a, kw):
    return isinstance(a[0], NonFin) and a[0].name != "nan"


def r_random(eng, a, kw):
    v = eng.fresh("float", "random")
    eng.assume(z3.And(v.t >= 0, v.t < 1))
    return v


def r_randint(eng, a, kw):
    v = eng.fresh("int", "randint")
    eng.assume(z3.And(v.t >= zi(a[0]), v.t <= zi(a[1])))
    return v


def r_time(eng, a, kw):
    return eng.fresh("float", "time")


def rx_compile(eng, a, kw):
    pat = a[0]
    if not isinstance(pat, str):
        return rx_value(eng, None, Sym("str", pat.t))
    if len(a) > 1 or kw:
        raise Unsupported("regular expression flags")
    try:
        pyre.compile(pat)
    except pyre.error:
        raise Unsupported("regular expression %r" % pat)
    return rx_value(eng, pat, pat)


def rx_value(eng, pat, term):
    s = Stub("re", {})
    s.pattern = pat
    s.attrs.update({"sub": lambda e, a, kw: e.rx_sub_value(term, a[0], a[1]) if len(a) == 2 and not kw else
                    e.unsup("re.sub with a count"),
                    "match": lambda e, a, kw: rx_match(e, term, a[0], "match"),
                    "search": lambda e, a, kw: rx_match(e, term, a[0], "search"),
                    "pattern": pat})
    return s


def rx_fn(name, pat, *sorts):
    return z3.Function("%s[%s]" % (name, pat), *sorts)


RX_SUB = z3.Function("re_sub", S, S, S, S)
RX_IS = {"match": z3.Function("re_match", S, S, z3.BoolSort()), "search": z3.Function("re_search", S, S, z3.BoolSort())}
RX_GROUP = {"match": z3.Function("re_group", S, S, z3.IntSort(), S),
            "search": z3.Function("re_search_group", S, S, z3.IntSort(), S)}


def rx_sub_value(eng, pat, repl, s):
    if all(isinstance(x, str) for x in (pat, repl, s)):
        return pyre.sub(pat, repl, s)
    if not is_str(repl):
        raise Unsupported("re.sub with a function")
    if not is_str(s):
        eng.throw("TypeError", "expected string")
    return Sym("str", RX_SUB(zs(pat), zs(repl), zs(s)))


def rx_match(eng, pat, s, how):
    if not is_str(s):
        eng.throw("TypeError", "expected string")
    if isinstance(pat, str) and isinstance(s, str):
        m = getattr(pyre, how)(pat, s)
        if m is None:
            return None
        return Stub("match", {"group": lambda e, a, kw: m.group(*a), "groups": lambda e, a, kw: m.groups()})
    for h in eng.rx_rules:
        r = h(eng, pat, s, how)
        if r is not None:
            return r
    if not eng.branch(RX_IS[how](zs(pat), zs(s))):
        return None

    def group(e, a, kw):
        k = a[0] if a else 0
        return Sym("str", RX_GROUP[how](zs(pat), zs(s), z3.IntVal(k)))

    def groups(e, a, kw):
        n = pyre.compile(pat).groups if isinstance(pat, str) else None
        if n is None:
            raise Unsupported("groups of a symbolic pattern")
        return tuple(group(e, [k], {}) for k in range(1, n + 1))
    return Stub("match", {"group": group, "groups": groups})


def fn_partial(eng, a, kw):
    return Partial(a[0], a[1:], kw)


def fn_update_wrapper(eng, a, kw):
    names = a[2] if len(a) > 2 else kw.get("assigned", ("__module__", "__name__", "__doc__"))
    eng.iterate(names, lambda n: eng.getattr_(a[1], n))
    return a[0]


def fn_wraps(eng, a, kw):
    return Builtin("wraps", lambda e, b, k: fn_update_wrapper(e, [b[0]] + list(a), kw))


def c_deque(eng, a, kw):
    if len(a) > 1 or kw:
        raise Unsupported("bounded deque")
    r = eng.alloc(HList([], "deque"))
    if a:
        eng.list_extend(r, a[0])
    return r


def f_fnmatch(eng, a, kw):
    if isinstance(a[0], str) and isinstance(a[1], str):
        import fnmatch
        return fnmatch.fnmatch(a[0], a[1])
    return Sym("bool", FNMATCH(zs(a[0]), zs(a[1])))


def h_md5(eng, a, kw):
    s = a[0]
    return Stub("md5", {"hexdigest": lambda e, b, k: Sym("str", MD5(zs(s)))})


def noop(eng, a, kw):
    return None


def identity_decorator(eng, a, kw):
    return Builtin("decorator", lambda e, b, k: b[0])


def b_insort(eng, a, kw):
    """Inserts once, at some position (where, is for contracts that need the order: eng.insort_rules)."""
    ref, x = a[0], a[1]
    o = eng.obj(ref)
    n = eng.segs_len(o.segs)
    i = eng.fresh("int", "insort_at")
    eng.assume(z3.And(i.t >= 0, i.t <= zi(n)))
    for rule in eng.insort_rules:
        rule(eng, ref, x, i, n)
    before = eng.segs_slice(list(o.segs), 0, i)
    after = eng.segs_slice(list(o.segs), i, n)
    o.segs = eng.norm_segs(list(before) + [[x]] + list(after))


EXTERN = {"bisect.insort": b_insort, "bisect.insort_right": b_insort, "math.floor": m_floor, "math.ceil": m_ceil, "math.trunc": m_trunc, "math.sqrt": m_sqrt, "math.exp": m_exp,
          "math.log": m_log, "math.isnan": m_isnan, "math.isinf": m_isinf, "random.random": r_random,
          "random.randint": r_randint, "re.compile": rx_compile, "functools.partial": fn_partial,
          "functools.wraps": fn_wraps, "functools.update_wrapper": fn_update_wrapper, "collections.deque": c_deque,
          "fnmatch.fnmatch": f_fnmatch, "fnmatch.fnmatchcase": f_fnmatch, "hashlib.md5": h_md5,
          "zope.interface.implements": noop, "zope.interface.implementer": identity_decorator,
          "zope.interface.Attribute": noop, "twisted.python.log.msg": noop, "time.time": r_time,
          "os.getpid": lambda e, a, k: e.fresh("int", "pid"),
          "re.sub": lambda e, a, k: e.rx_sub_value(a[0], a[1], a[2]),
          "re.match": lambda e, a, k: rx_match(e, a[0], a[1], "match"),
          "re.escape": lambda e, a, k: pyre.escape(a[0])}

CONSTS = {"logging.DEBUG": 10, "logging.INFO": 20, "logging.WARNING": 30, "logging.ERROR": 40, "logging.CRITICAL": 50,
          "sys.maxint": 2 ** 31 - 1, "sys.maxsize": 2 ** 31 - 1, "sys.version_info": (2, 7, 3, "final", 0),
          "socket.AF_INET": 2, "socket.SOCK_DGRAM": 2, "socket.SOCK_STREAM": 1, "socket.SOL_UDP": 17,
          "functools.WRAPPER_ASSIGNMENTS": ("__module__", "__name__", "__doc__"), "functools.WRAPPER_UPDATES": ("__dict__",),
          "math.pi": Fraction("3.141592653589793")}

EXC_EXT = {"socket.error": "IOError", "socket.gaierror": "socket.error", "getopt.error": "Exception",
           "Queue.Empty": "Exception", "twisted.python.usage.UsageError": "Exception",
           "socket.timeout": "socket.error"}

EMPTY_BASES = ["twisted.internet.protocol.DatagramProtocol", "twisted.internet.protocol.Protocol",
               "twisted.internet.protocol.Factory", "twisted.internet.protocol.ReconnectingClientFactory",
               "twisted.protocols.basic.LineReceiver", "twisted.application.service.Service", "threading.Thread",
               "zope.interface.Interface"]


def install(eng):
    eng.builtins = {n: Builtin(n, f) for n, f in BUILTINS.items()}
    eng.builtins["NotImplemented"] = ExtV("NotImplemented")
    eng.object_class = ClassV("object", [], eng.alloc(HEnv({})), "builtins")
    eng.extern.update({n: Builtin(n, f) for n, f in EXTERN.items()})
    eng.extern.update(CONSTS)
    for n, b in EXC_EXT.items():
        eng.extern[n] = eng.exc_class(n, b)
    for n in EMPTY_BASES:
        eng.ext_classes[n] = {}
    eng.ext_classes["stub.exception"] = {}
    eng.strspec = {}
    eng.strspec_decl = {}
    eng.tokbases = {}
    eng.rangebases = {}
    eng.rx_rules = []
    eng.counting = set()        # keys of aggregates whose function is never negative
    eng.insort_rules = []
    eng.split_limit = 3
    eng.symbolic_ranges = False
    t = type(eng)
    t.length = length
    t.str_contains = str_contains
    t.rx_sub_value = rx_sub_value
    t.gt = lambda self, a, b: self.lt(b, a)
    t.unsup = lambda self, m: unsup(m)
    t.str_index = str_index
    t.str_slice = str_slice


def unsup(m):
    raise Unsupported(m)


SLICE = z3.Function("str_slice", S, z3.IntSort(), z3.IntSort(), S)


def str_index(eng, s, i):
    if isinstance(s, str) and isinstance(i, int):
        if -len(s) <= i < len(s):
            return s[i]
        eng.throw("IndexError", "string index out of range")
    if not is_int(i):
        eng.throw("TypeError", "string indices must be integers")
    ps = parts_of(s)
    if isinstance(i, int) and ps:
        if i == -1 and isinstance(ps[-1], str):
            return ps[-1][-1]
        if i == 0 and isinstance(ps[0], str):
            return ps[0][0]
    n = z3.Length(zs(s))
    t = zi(i)
    if eng.branch(t < 0):
        t = t + n
        if not eng.branch(t >= 0):
            eng.throw("IndexError", "string index out of range")
    elif not eng.branch(t < n):
        eng.throw("IndexError", "string index out of range")
    return Sym("str", z3.SubString(zs(s), t, 1))


def str_slice(eng, s, lo, hi):
    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return s[lo:hi]
    ps = parts_of(s)
    if isinstance(hi, int) and hi < 0 and lo is None and isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
        return value(ps[:-1] + [ps[-1][:hi]])
    if isinstance(lo, int) and lo < 0 and hi is None and isinstance(ps[-1], str) and len(ps[-1]) >= -lo:
        return ps[-1][lo:]
    if isinstance(lo, int) and lo >= 0 and hi is None and isinstance(ps[0], str) and len(ps[0]) >= lo:
        return value([ps[0][lo:]] + ps[1:])
    if getattr(eng, "opaque_slices", False) or z3.is_app(zs(s)) and zs(s).decl().eq(MD5):
        return Sym("str", SLICE(zs(s), zi(lo or 0), zi(hi if hi is not None else 10 ** 9)))
    n = Sym("int", z3.Length(zs(s)))
    a = eng.clamp(n, lo, 0)
    b = eng.clamp(n, hi, zi(n))
    if not eng.branch(zi(a) < zi(b)):
        return ""
    return lift("str", z3.simplify(z3.SubString(zs(s), zi(a), zi(b) - zi(a))))
