"""Operators of the verified subset on pyded values: arithmetic, comparison, strings, sequences."""
from fractions import Fraction

import z3

from .core import (ABSENT, Base, BoundM, Builtin, ClassV, Comp, ExtV, Func, HDict, HInst, HIter, HList, HGen, NonFin,
                   Poison, Ref, Stub, Sym, U, Unsupported, esc, is_boolv, is_float, is_int, is_num, is_str, lift, zb,
                   zi, zr, zs, ModuleV, Partial)

XOR = z3.Function("bitxor", z3.IntSort(), z3.IntSort(), z3.IntSort())
ROUND = z3.Function("round_to", z3.RealSort(), z3.IntSort(), z3.RealSort())
STR_INT = z3.Function("str_int", z3.IntSort(), z3.StringSort())
STR_REAL = z3.Function("str_float", z3.RealSort(), z3.StringSort())
STR_OBJ = z3.Function("str_obj", U, z3.StringSort())
REPR_STR = z3.Function("repr_str", z3.StringSort(), z3.StringSort())
PARSE_OK = z3.Function("float_ok", z3.StringSort(), z3.BoolSort())          # float(s) raises no error
PARSE_FIN = z3.Function("float_finite", z3.StringSort(), z3.BoolSort())     # ... and gives neither NaN nor infinity
PARSE = z3.Function("float_of", z3.StringSort(), z3.RealSort())
PARSE_NAN = z3.Function("float_nan", z3.StringSort(), z3.BoolSort())
INT_OK = z3.Function("int_ok", z3.StringSort(), z3.BoolSort())
INT_OF = z3.Function("int_of", z3.StringSort(), z3.IntSort())
POW2 = z3.Function("pow2", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())
UTF8 = z3.Function("utf8", z3.StringSort(), z3.StringSort())
FMT = {}
DIGITS = z3.Range("0", "9")
INT_RE = z3.Concat(z3.Option(z3.Re("-")), z3.Plus(DIGITS))


def fmt_fn(key, sort):
    k = (key, sort.name())
    if k not in FMT:
        FMT[k] = z3.Function("fmt_%s_%s" % (key, sort.name()), sort, z3.StringSort())
    return FMT[k]


def flat(t):
    """The parts of a string term: Python strings and z3 terms, adjacent literals joined."""
    if isinstance(t, str):
        return [t] if t else []
    out = []

    def walk(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                walk(c)
        elif z3.is_string_value(x):
            s = lift("str", x)
            if s:
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
        else:
            out.append(x)
    walk(t)
    return out


def unflat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and not p)]
    if not parts:
        return ""
    if len(parts) == 1:
        return parts[0] if isinstance(parts[0], str) else Sym("str", parts[0])
    return Sym("str", z3.Concat(*[zs(p) for p in parts]))


def concat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    return unflat(join_lits(flat(a if isinstance(a, str) else a.t) + flat(b if isinstance(b, str) else b.t)))


def join_lits(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def strip_common(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                break
            a[0], b[0] = x[n:], y[n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
            if a and b and isinstance(a[0], str) and isinstance(b[0], str):
                break
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            a.pop(0)
            b.pop(0)
        else:
            break
    return a, b


def strip_common_end(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0:
                break
            a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
            if not a[-1]:
                a.pop()
            if not b[-1]:
                b.pop()
            if a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
                break
        elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
            a.pop()
            b.pop()
        else:
            break
    return a, b


def parts_of(v):
    return flat(v) if isinstance(v, str) else flat(v.t)


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    x, y = strip_common(parts_of(a), parts_of(b))
    x, y = strip_common_end(x, y)
    if not x and not y:
        return True
    if x and y and isinstance(x[0], str) and isinstance(y[0], str) and x[0][0] != y[0][0]:
        return False
    if x and y and isinstance(x[-1], str) and isinstance(y[-1], str) and x[-1][-1] != y[-1][-1]:
        return False
    if (not x and any(isinstance(p, str) for p in y)) or (not y and any(isinstance(p, str) for p in x)):
        return False
    # STR_INT is injective
    if len(x) == 1 and len(y) == 1 and all(not isinstance(p, str) and z3.is_app(p) and p.decl().eq(STR_INT)
                                          for p in (x[0], y[0])):
        return x[0].arg(0) == y[0].arg(0)
    return zs(unflat(x)) == zs(unflat(y))


def str_lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    x, y = strip_common(parts_of(a), parts_of(b))
    if not x:
        return str_nonempty(y)
    if not y:
        return False
    if isinstance(x[0], str) and isinstance(y[0], str):
        return x[0][0] < y[0][0]
    return zs(unflat(x)) < zs(unflat(y))


def str_nonempty(parts):
    if any(isinstance(p, str) for p in parts):
        return True
    if any(z3.is_app(p) and p.decl().eq(STR_INT) for p in parts):
        return True
    if not parts:
        return False
    return zs(unflat(parts)) != zs("")


def And(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def Not(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def Implies(a, b):
    return Or(Not(a), b)


def obj_term(v):
    if isinstance(v, Sym) and v.kind == "obj":
        return v.t
    if isinstance(v, Stub) and v.term is not None:
        return v.term
    return None


def num_eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_float(a) or is_float(b):
            return z3.simplify(zr(a) == zr(b)) if False else zr(a) == zr(b)
        return zi(a) == zi(b)
    return a == b


def num_lt(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_float(a) or is_float(b):
            return zr(a) < zr(b)
        return zi(a) < zi(b)
    return a < b


def num_le(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_float(a) or is_float(b):
            return zr(a) <= zr(b)
        return zi(a) <= zi(b)
    return a <= b


def check_poison(*vs):
    for v in vs:
        if isinstance(v, Poison):
            raise Unsupported("uses the value that a loop leaves in a variable (%s)" % v.why)


class OpsMixin(object):
    """Operators that need the engine (they can fork, raise, or read the heap)."""

    # truth ---------------------------------------------------------------------------------------------------------
    def truth(self, v):
        check_poison(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, NonFin):
            return True
        if isinstance(v, Sym):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "float":
                return v.t != 0
            if v.kind == "str":
                return str_nonempty(flat(v.t))
            if v.kind == "obj":
                raise Unsupported("truth of an opaque value")
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                n = self.list_len(v)
                return n > 0 if isinstance(n, int) else n.t > 0
            if isinstance(o, HDict):
                n = self.dict_len(v)
                return n > 0 if isinstance(n, int) else n.t > 0
            if isinstance(o, HInst):
                for m in ("__nonzero__", "__len__"):
                    f = self.class_lookup(o.cls, m)
                    if f is not None:
                        return self.truth(self.call(self.bind(f, v, o.cls), [], {}))
                return True
            return True
        return True

    # equality and order -----------------------------------------------------------------------------------------
    def eq(self, a, b):
        """bool or z3 condition: a == b."""
        check_poison(a, b)
        if is_num(a) and is_num(b):
            return num_eq(a, b)
        if isinstance(a, NonFin) or isinstance(b, NonFin):
            if isinstance(a, NonFin) and isinstance(b, NonFin):
                raise Unsupported("comparison of non-finite floats")
            return False
        if is_str(a) and is_str(b):
            return str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        ta, tb = obj_term(a), obj_term(b)
        if ta is not None and tb is not None:
            return ta == tb
        if ta is not None or tb is not None:
            o = b if ta is not None else a
            if isinstance(a, Stub) or isinstance(b, Stub):
                return False
            if o is None or is_num(o) or is_str(o) or isinstance(o, (tuple, Ref)):
                raise Unsupported("comparison of an opaque value with %r" % (o,))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            x, y = self.obj(a), self.obj(b)
            if isinstance(x, HList) and isinstance(y, HList):
                return self.list_eq(a, b)
            if isinstance(x, HDict) and isinstance(y, HDict):
                return self.dict_eq(a, b)
            if isinstance(x, HInst):
                f = self.class_lookup(x.cls, "__eq__")
                if f is not None:
                    return zb_or_bool(self.truth(self.call(self.bind(f, a, x.cls), [b], {})))
            return False
        if isinstance(a, (Func, ClassV, Builtin, ModuleV, Stub, Partial)) or \
                isinstance(b, (Func, ClassV, Builtin, ModuleV, Stub, Partial)):
            return a is b
        if isinstance(a, (BoundM, ExtV)) or isinstance(b, (BoundM, ExtV)):
            return a == b
        if type(a) != type(b) or a is None:
            return a is None and b is None
        return a == b

    def same(self, a, b):
        """Deep equality of a result with what is expected, where int and float of the same value agree."""
        return self.eq(a, b)

    RANK = {"none": 0, "num": 1, "list": 2, "str": 3, "tuple": 4}

    def rank(self, v):
        if v is None:
            return 0
        if is_num(v):
            return 1
        if isinstance(v, Ref):
            return 2
        if is_str(v):
            return 3
        if isinstance(v, tuple):
            return 4
        return None

    def lt(self, a, b):
        check_poison(a, b)
        if is_num(a) and is_num(b):
            return num_lt(a, b)
        if is_str(a) and is_str(b):
            return str_lt(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            res = len(a) < len(b)
            for x, y in reversed(list(zip(a, b))):
                l = self.lt(x, y)
                if l is True:
                    res = True
                    continue
                e = self.eq(x, y)
                res = Or(l, And(e, res))
            return res
        ta, tb = obj_term(a), obj_term(b)
        if ta is not None and tb is not None:
            return OBJ_LT(ta, tb)
        if a is None and b is None:
            return False
        if a is None:
            return True
        if b is None:
            return False
        ra, rb = self.rank(a), self.rank(b)
        if ra is not None and rb is not None and ra != rb:
            return ra < rb
        raise Unsupported("order of %r and %r" % (a, b))

    def le(self, a, b):
        if is_num(a) and is_num(b):
            return num_le(a, b)
        return Or(self.lt(a, b), self.eq(a, b))

    def mk(self, c):
        """A Python-level value from a condition."""
        if isinstance(c, bool):
            return c
        return lift("bool", z3.simplify(c))

    def is_(self, a, b):
        check_poison(a, b)
        if a is None or b is None:
            if isinstance(a, Sym) and a.kind == "obj" or isinstance(b, Sym) and b.kind == "obj":
                return False
            return a is None and b is None
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if is_boolv(a) and is_boolv(b):
            return num_eq(a, b)
        if isinstance(a, (Func, ClassV, Builtin, Stub, ExtV, ModuleV)):
            return self.eq(a, b)
        ta, tb = obj_term(a), obj_term(b)
        if ta is not None and tb is not None:
            return ta == tb
        if type(a) != type(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    # arithmetic --------------------------------------------------------------------------------------------------
    def neg(self, v):
        check_poison(v)
        if isinstance(v, Sym):
            if v.kind in ("int", "bool"):
                return lift("int", z3.simplify(-zi(v)))
            if v.kind == "float":
                return Sym("float", -v.t)
        if isinstance(v, (int, Fraction)):
            return -v
        self.unsup_or_raise("TypeError", v)

    def unsup_or_raise(self, exc, *vs):
        if any(isinstance(v, (Sym, Stub, ExtV, NonFin)) and not (isinstance(v, Sym) and v.kind != "obj") for v in vs):
            raise Unsupported("operation on %r" % (vs,))
        self.throw(exc, "unsupported operand")

    def binop(self, op, a, b):
        check_poison(a, b)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if op == "Add":
            if is_str(a) and is_str(b):
                return concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref):
                x, y = self.obj(a), self.obj(b)
                if isinstance(x, HList) and isinstance(y, HList):
                    return self.alloc(HList(x.clone().segs + y.clone().segs))
        if op == "Mod" and is_str(a):
            return self.format(a, b)
        if op == "Mult":
            if isinstance(b, Ref) and isinstance(self.obj(b), HList) and is_int(a):
                a, b = b, a
            if isinstance(a, Ref) and isinstance(self.obj(a), HList) and is_int(b):
                return self.list_repeat(a, b)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(a, str) and isinstance(b, int):
                return a * b
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.obj(a), self.obj(b)
            if isinstance(x, HDict) and isinstance(y, HDict) and x.kind == y.kind == "set" and op == "BitOr":
                r = self.alloc(self.obj(a).clone())
                self.set_add_all(r, b)
                return r
        if isinstance(a, Ref) and isinstance(self.obj(a), HInst):
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(op)
            f = m and self.class_lookup(self.obj(a).cls, m)
            if f is not None:
                return self.call(self.bind(f, a, self.obj(a).cls), [b], {})
        self.unsup_or_raise("TypeError", a, b)

    def arith(self, op, a, b):
        conc = not isinstance(a, Sym) and not isinstance(b, Sym)
        fl = is_float(a) or is_float(b)
        if op in ("Add", "Sub", "Mult"):
            if conc:
                r = a + b if op == "Add" else a - b if op == "Sub" else a * b
                return Fraction(r) if fl else int(r)
            z = zr if fl else zi
            x, y = z(a), z(b)
            t = x + y if op == "Add" else x - y if op == "Sub" else x * y
            return lift("float" if fl else "int", z3.simplify(t))
        if op in ("Div", "FloorDiv"):
            zero = self.branch(num_eq(b, 0))
            if zero:
                self.throw("ZeroDivisionError", "division by zero")
            if fl and op == "Div":
                if conc:
                    return Fraction(a) / Fraction(b)
                return lift("float", z3.simplify(zr(a) / zr(b)))
            if fl:
                q = self.arith("Div", a, b)
                return self.to_float(self.floor(q))
            if conc:
                return a // b
            if isinstance(b, int) and b > 0:
                return Sym("int", zi(a) / zi(b))
            q = self.fresh("int", "quot")
            x, y = zi(a), zi(b)
            r = x - y * q.t
            self.assume(z3.Or(z3.And(y > 0, r >= 0, r < y), z3.And(y < 0, r <= 0, r > y)))
            return q
        if op == "Mod":
            if self.branch(num_eq(b, 0)):
                self.throw("ZeroDivisionError", "modulo by zero")
            if fl:
                raise Unsupported("float modulo")
            if conc:
                return a % b
            x, y = zi(a), zi(b)
            if isinstance(b, int) and b > 0:
                return lift("int", z3.simplify(x % y))
            q, r = self.fresh("int", "quot"), self.fresh("int", "rem")
            self.assume(z3.And(x == y * q.t + r.t, z3.Or(z3.And(y > 0, r.t >= 0, r.t < y),
                                                         z3.And(y < 0, r.t <= 0, r.t > y))))
            # (consequences, linear)
            self.assume(z3.And(z3.Implies(z3.And(x >= 0, x < y), r.t == x), z3.Implies(z3.And(y > 0, x >= y, x < 2 * y), r.t == x - y)))
            return r
        if op == "Pow":
            if conc and not fl and b >= 0:
                return a ** b
            if isinstance(a, (int, Fraction)) and a == 2:
                return self.pow2(b)
            if isinstance(b, int) and b == 2:
                return self.arith("Mult", a, a)
            raise Unsupported("power")
        if fl:
            self.throw("TypeError", "bit operation on floats")
        if op == "RShift":
            if conc:
                return a >> b
            if isinstance(b, int) and b >= 0:
                return lift("int", z3.simplify(zi(a) / z3.IntVal(2 ** b)))
        if op == "LShift":
            if conc:
                return a << b
            if isinstance(b, int):
                return lift("int", z3.simplify(zi(a) * (2 ** b)))
        if op == "BitAnd":
            if conc:
                return a & b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return lift("int", z3.simplify(zi(a) % z3.IntVal(b + 1)))
        if op == "BitXor":
            if conc:
                return a ^ b
            t = XOR(zi(a), zi(b))
            x, y = zi(a), zi(b)
            for k in (32, 34):
                self.assume(z3.Implies(z3.And(x >= 0, x < 2 ** k, y >= 0, y < 2 ** k), z3.And(t >= 0, t < 2 ** k)))
            return Sym("int", t)
        if op == "BitOr" and conc:
            return a | b
        raise Unsupported("operator %s" % op)

    def pow2(self, b):
        if isinstance(b, int) and b >= 0:
            return 2 ** b
        t = POW2(zr(b))
        self.assume(t > 0)
        seen = self.basefacts.setdefault("pow2", [])
        for o in seen:
            self.assume(z3.Implies(o <= zr(b), POW2(o) <= t))
            self.assume(z3.Implies(zr(b) <= o, t <= POW2(o)))
        seen.append(zr(b))
        return Sym("float", t)

    def to_float(self, v):
        check_poison(v)
        if isinstance(v, NonFin):
            return v
        if isinstance(v, (bool, int, Fraction)):
            return Fraction(v)
        if isinstance(v, Sym) and v.kind in ("int", "bool", "float"):
            return v if v.kind == "float" else lift("float", zr(v))
        if isinstance(v, str):
            try:
                f = float(v)
            except ValueError:
                self.throw("ValueError", "could not convert string to float")
            if f != f:
                return NonFin("nan")
            if f in (float("inf"), float("-inf")):
                return NonFin("inf" if f > 0 else "-inf")
            return Fraction(v.strip()) if not any(c in v for c in "_") else self.throw("ValueError", "float")
        if isinstance(v, Sym) and v.kind == "str":
            n = int_text(v)
            if n is not None:
                return Sym("float", z3.ToReal(n))
            if not self.branch(PARSE_OK(v.t)):
                self.throw("ValueError", "could not convert string to float")
            if not self.branch(PARSE_FIN(v.t)):
                return NonFin("nan") if self.branch(PARSE_NAN(v.t)) else NonFin("inf")
            return Sym("float", PARSE(v.t))
        self.unsup_or_raise("TypeError", v)

    def to_int(self, v):
        check_poison(v)
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, NonFin):
            self.throw("ValueError" if v.name == "nan" else "OverflowError", "cannot convert float to integer")
        if isinstance(v, Sym):
            if v.kind == "int":
                return v
            if v.kind == "bool":
                return Sym("int", zi(v))
            if v.kind == "float":
                return self.trunc(v)
            if v.kind == "str":
                n = int_text(v)
                if n is not None:
                    return Sym("int", n)
                if not self.branch(INT_OK(v.t)):
                    self.throw("ValueError", "invalid literal for int()")
                return Sym("int", INT_OF(v.t))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                self.throw("ValueError", "invalid literal for int()")
        self.unsup_or_raise("TypeError", v)

    def trunc(self, v):
        if not isinstance(v, Sym):
            return int(v)
        if v.kind != "float":
            return v
        if z3.is_app(v.t) and v.t.decl().kind() == z3.Z3_OP_TO_REAL:
            return Sym("int", v.t.arg(0))
        r = z3.ToInt(v.t)
        return Sym("int", z3.If(v.t >= 0, r, -z3.ToInt(-v.t)))

    def floor(self, v):
        if isinstance(v, Sym):
            if v.kind != "float":
                return v
            return Sym("int", z3.ToInt(v.t))
        return v.__floor__() if isinstance(v, Fraction) else v

    def round_(self, v, n=0):
        check_poison(v)
        v = self.to_float(v)
        if not isinstance(n, int):
            raise Unsupported("round to a symbolic precision")
        if isinstance(v, Fraction):
            s = Fraction(10) ** n
            x = v * s
            f = abs(x).__floor__()
            if abs(x) - f >= Fraction(1, 2):
                f += 1
            return Fraction(f if x >= 0 else -f) / s
        if n == 0:
            a = v.t
            f = z3.If(a >= 0, z3.ToInt(a + z3.RealVal("1/2")), -z3.ToInt(-a + z3.RealVal("1/2")))
            return Sym("float", z3.ToReal(f))
        t = ROUND(v.t, z3.IntVal(n))
        h = z3.RealVal("1/%d" % (2 * 10 ** n)) if n > 0 else z3.RealVal(5)
        self.assume(z3.And(t - v.t <= h, v.t - t <= h))
        return Sym("float", t)

    # formatting --------------------------------------------------------------------------------------------------
    def to_str(self, v):
        check_poison(v)
        if is_str(v):
            return v
        if v is None:
            return "None"
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Fraction):
            return Sym("str", STR_REAL(zr(v)))
        if isinstance(v, Sym):
            if v.kind == "int":
                t = STR_INT(v.t)
                self.assume(z3.InRe(t, INT_RE))
                return Sym("str", t)
            if v.kind == "float":
                t = STR_REAL(v.t)
                self.assume(z3.InRe(t, REAL_RE))
                return Sym("str", t)
            if v.kind == "obj":
                return Sym("str", STR_OBJ(v.t))
            if v.kind == "bool":
                return "True" if self.branch(v.t) else "False"
        if isinstance(v, Stub) and v.term is not None:
            return Sym("str", STR_OBJ(v.term))
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HInst):
                f = self.class_lookup(o.cls, "__str__")
                if f is not None:
                    return self.call(self.bind(f, v, o.cls), [], {})
        return self.fresh("str", "str")

    def format(self, f, args):
        if not isinstance(f, str):
            raise Unsupported("symbolic format string")
        import re
        spec = re.compile(r"%(?:\(([^)]*)\))?([-0-9.]*)([a-zA-Z%])")
        out = ""
        pos = 0
        vals = list(args) if isinstance(args, tuple) else None
        used = 0
        mapping = args if isinstance(args, Ref) and isinstance(self.obj(args), HDict) else None
        for m in spec.finditer(f):
            out = concat(out, f[pos:m.start()])
            pos = m.end()
            name, flags, c = m.groups()
            if c == "%":
                out = concat(out, "%")
                continue
            if name is not None:
                if mapping is None:
                    self.throw("TypeError", "format requires a mapping")
                v = self.getitem(mapping, name)
            else:
                if vals is None:
                    vals = [args]
                if used >= len(vals):
                    self.throw("TypeError", "not enough arguments for format string")
                v = vals[used]
                used += 1
            out = concat(out, self.format1(flags, c, v))
        if pos == 0 and "%" in f:
            raise Unsupported("format %r" % f)
        if vals is not None and used < len(vals) and mapping is None:
            self.throw("TypeError", "not all arguments converted")
        if vals is None and mapping is None and not isinstance(args, tuple):
            self.throw("TypeError", "not all arguments converted")
        return concat(out, f[pos:])

    def format1(self, flags, c, v):
        check_poison(v)
        if c == "s":
            s = self.to_str(v)
            if flags:
                return self.opaque_str("pad" + flags, s)
            return s
        if c in "di":
            if is_str(v) or v is None or isinstance(v, tuple):
                self.throw("TypeError", "%d format: a number is required")
            if not is_num(v):
                return self.fresh("str", "fmt")
            n = self.to_int(v)
            if isinstance(n, int) :
                return ("%" + flags + "d") % n
            return self.to_str(n) if not flags else Sym("str", fmt_fn("d" + flags, z3.IntSort())(zi(n)))
        if c in "feEgG":
            if not is_num(v):
                if isinstance(v, (Ref, Stub)) or (isinstance(v, Sym) and v.kind == "obj"):
                    return self.fresh("str", "fmt")
                self.throw("TypeError", "float argument required")
            return Sym("str", fmt_fn(c + flags, z3.RealSort())(zr(v)))
        if c == "r":
            if is_str(v):
                return Sym("str", REPR_STR(zs(v)))
            if is_num(v):
                return self.to_str(v)
            return self.fresh("str", "repr")
        raise Unsupported("format %%%s" % c)

    def opaque_str(self, key, s):
        return Sym("str", fmt_fn(key, z3.StringSort())(zs(s)))

    # deep equality of containers ---------------------------------------------------------------------------------
    def list_eq(self, a, b):
        sa, sb = self.norm_segs(self.obj(a).segs), self.norm_segs(self.obj(b).segs)
        r = self.segs_eq(sa, sb)
        if r is None:
            raise Unsupported("equality of %r and %r" % (sa, sb))
        return r

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, list):
                if not s:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + s
                    continue
                s = list(s)
            elif isinstance(s, Base) and isinstance(s.n, int) and s.n == 0:
                continue
            elif isinstance(s, Comp) and not any(items for _, _, items in s.cases):
                continue
            out.append(s)
        return out

    def segs_eq(self, sa, sb):
        """bool/z3 condition, or None if it cannot be decided."""
        conds = []
        sa, sb = [list(x) if isinstance(x, list) else x for x in sa], [list(x) if isinstance(x, list) else x
                                                                      for x in sb]
        while sa and sb:
            x, y = sa[0], sb[0]
            if isinstance(x, list) and isinstance(y, list):
                k = min(len(x), len(y))
                conds += [self.eq(p, q) for p, q in zip(x[:k], y[:k])]
                sa[0], sb[0] = x[k:], y[k:]
                if not sa[0]:
                    sa.pop(0)
                if not sb[0]:
                    sb.pop(0)
                continue
            if isinstance(x, Base) and isinstance(y, Base):
                if x.root is y.root and x is not y and self.known(zi(x.off) == zi(y.off)) and not self.known(zi(x.n) == zi(y.n)):
                    if self.known(zi(x.n) <= zi(y.n)):
                        sa.pop(0)
                        sb[0] = self.sub_base(y, x.n, y.n)
                        continue
                    if self.known(zi(y.n) <= zi(x.n)):
                        sb.pop(0)
                        sa[0] = self.sub_base(x, y.n, x.n)
                        continue
                e = self.base_eq(x, y)
                if e is None:
                    return None
                conds.append(e)
            elif isinstance(x, Comp) and isinstance(y, Comp):
                e = self.comp_eq(x, y)
                if e is None:
                    return None
                conds.append(e)
            elif isinstance(x, (Base, Comp)) and isinstance(y, (Base, Comp)):
                e = self.comp_eq(self.as_comp(x), self.as_comp(y))
                if e is None:
                    return None
                conds.append(e)
            else:
                if isinstance(x, list) and isinstance(y, Base) and self.known(zi(y.n) >= 1):
                    conds.append(self.eq(x[0], self.elem(y, z3.IntVal(0))))
                    sa[0], sb[0] = x[1:], self.sub_base(y, 1, y.n)
                    if not sa[0]:
                        sa.pop(0)
                    continue
                if isinstance(y, list) and isinstance(x, Base) and self.known(zi(x.n) >= 1):
                    conds.append(self.eq(self.elem(x, z3.IntVal(0)), y[0]))
                    sa[0], sb[0] = self.sub_base(x, 1, x.n), y[1:]
                    if not sb[0]:
                        sb.pop(0)
                    continue
                return None if not self.dead_mismatch(sa, sb) else False
            sa.pop(0)
            sb.pop(0)
        if sa or sb:
            rest = sa or sb
            n = self.segs_len(rest)
            conds.append(n == 0 if isinstance(n, int) else zi(n) == 0)
        return And(*conds)

    def known(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return self.check([z3.Not(c)], self.branch_ms)[0] == z3.unsat

    def dead_mismatch(self, sa, sb):
        """The two have provably different lengths."""
        try:
            la, lb = self.segs_len(sa), self.segs_len(sb)
        except Unsupported:
            return False
        if isinstance(la, int) and isinstance(lb, int):
            return la != lb
        r, _ = self.check([zi(la) == zi(lb)], self.branch_ms)
        return r == z3.unsat


OBJ_LT = z3.Function("obj_lt", U, U, z3.BoolSort())
REAL_RE = z3.Plus(z3.Union(DIGITS, z3.Re("-"), z3.Re("+"), z3.Re("."), z3.Re("e"), z3.Re("i"), z3.Re("n"),
                           z3.Re("f"), z3.Re("a")))


def int_text(v):
    """The int term that the text of v is the decimal form of, if that is evident."""
    if isinstance(v, Sym) and z3.is_app(v.t) and v.t.decl().eq(STR_INT):
        return v.t.arg(0)
    return None


def zb_or_bool(c):
    return c
