"""The verification-condition generator: executes the ASTs of the code under verification on symbolic values.

Semantics are those of Python 2.7 as run by Jython, with mathematical integers and with floats as real numbers.
Anything not modelled raises Unsupported, which fails the obligation at hand.
"""
from fractions import Fraction

import z3

from .core import (ABSENT, Base, BoundM, Builtin, ClassV, Comp, Descr, Engine, ExtV, Func, HDict, HEnv, HGen, HInst,
                   HIter, HList, ModuleV, NonFin, Partial, PathEnd, Poison, Ref, Stub, SuperV, Sym, Unsupported,
                   is_int, is_num, is_str, lift, zb, zi, zr, zs)
from .dicts import DictMixin
from .loader import Node
from .ops import And, Not, OpsMixin, Or, concat, flat
from .seqs import (BreakEx, ConsumerExc, ContinueEx, LazyIter, PyExc, ReturnEx, SeqMixin)

EXC_TREE = """BaseException
 Exception
  StandardError
   ArithmeticError
    ZeroDivisionError
    OverflowError
   AssertionError
   AttributeError
   EnvironmentError
    IOError
    OSError
   ImportError
   LookupError
    IndexError
    KeyError
   NameError
    UnboundLocalError
   RuntimeError
    NotImplementedError
   TypeError
   ValueError
    UnicodeError
     UnicodeDecodeError
     UnicodeEncodeError
  StopIteration
 GeneratorExit
 KeyboardInterrupt
 SystemExit"""

MAX_DEPTH = 70
MAX_UNROLL = 40


class YieldEx(Exception):
    """A yield of a generator that is run step by step, on its way to the generator's next()."""

    def __init__(self, value):
        self.value, self.path = value, []


class SymArgs(object):
    """Positional arguments, any number of them, for the parameter with a star (a list stands for the tuple)."""

    def __init__(self, ref):
        self.ref = ref


class Frame(object):
    def __init__(self, func, env, locals_):
        self.func, self.env, self.locals = func, env, locals_
        self.loops = []
        self.on_yield = None
        self.step = False
        self.globals_ = ()
        self.exc = []


class Interp(Engine, OpsMixin, SeqMixin, DictMixin):
    def __init__(self, source, **kw):
        Engine.__init__(self, **kw)
        self.source = source
        self.modules = {}
        self.broken = {}
        self.contracts = {}         # qualified name -> function(engine, func, args, kwargs): a callee's contract
        self.extern = {}            # dotted path -> value
        self.ext_classes = {}       # dotted path of a base class -> {method name: value}
        self.invariants = []
        self.exits = []
        self.while_rules = {}
        self.for_rules = {}
        self.orders = {}            # in which orders each dict was gone over
        self.sort_rule = None       # a contract for sorting lists of structured elements
        self.executed = {}          # qualified name -> file:line of the functions whose bodies have been verified
        self.calldepth = 0
        self.exc = {}
        self.used_contracts = set()
        self.used_extern = set()
        self.localcache = {}
        self.make_exceptions()
        self.builtins = {}
        from . import lib
        lib.install(self)

    # modules -------------------------------------------------------------------------------------------------------
    def make_exceptions(self):
        stack = []
        for line in EXC_TREE.split("\n"):
            d = len(line) - len(line.lstrip())
            del stack[d:]
            n = line.strip()
            c = ClassV(n, [stack[-1]] if stack else [], self.alloc(HEnv({})), "builtins")
            stack.append(c)
            self.exc[n] = c

    def exc_class(self, name, base="Exception"):
        if name not in self.exc:
            self.exc[name] = ClassV(name, [self.exc[base]], self.alloc(HEnv({})), "ext")
        return self.exc[name]

    def load_all(self):
        for m in sorted(self.source.modules):
            self.load(m)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.broken:
            raise Unsupported("module %s: %s" % (name, self.broken[name]))
        node = self.source.modules.get(name)
        if node is None:
            if any(m.startswith(name + ".") for m in self.source.modules):
                mod = self.modules[name] = ModuleV(name, self.alloc(HEnv({"__name__": name})))
                return mod
            raise Unsupported("module %s: %s" % (name, self.source.errors.get(name, "not found")))
        env = self.alloc(HEnv({"__name__": name, "__file__": self.source.files[name]}))
        mod = ModuleV(name, env)
        self.modules[name] = mod
        fr = Frame(None, env, None)
        fr.module = name
        try:
            self.exec_block(node.body, fr)
        except Unsupported as e:
            del self.modules[name]
            self.broken[name] = str(e)
            raise
        except PyExc as e:
            del self.modules[name]
            self.broken[name] = "raises %s" % e.cls.name
            raise Unsupported("module %s raises %s" % (name, e.cls.name))
        return mod

    def get(self, path):
        """The value "module:Qual.name" of the code under verification."""
        m, _, q = path.partition(":")
        v = self.load(m)
        for p in q.split("."):
            v = self.getattr_(v, p)
        return v

    def import_(self, name):
        if name in self.source.modules or name in self.source.errors or name == "txstatsd":
            return self.load(name)
        return self.ext(name)

    def ext(self, path):
        if path in self.extern:
            return self.extern[path]
        return ExtV(path)

    # functions -----------------------------------------------------------------------------------------------------
    def locals_of(self, node):
        k = id(node)
        if k not in self.localcache:
            names, globs, gen = set(), set(), [False]

            def target(t):
                if t.t == "Name":
                    names.add(t.id)
                elif t.t in ("Tuple", "List"):
                    for x in t.elts:
                        target(x)

            def walk(n):
                if isinstance(n, list):
                    for x in n:
                        walk(x)
                    return
                if not isinstance(n, Node):
                    return
                if n.t in ("FunctionDef", "ClassDef"):
                    names.add(n.name)
                    for d in n.decorator_list:
                        walk(d)
                    if n.t == "FunctionDef":
                        walk(n.args.defaults)
                    return
                if n.t == "Lambda":
                    walk(n.args.defaults)
                    return
                if n.t == "GeneratorExp":
                    walk(n.generators[0].iter)
                    return
                if n.t == "Yield":
                    gen[0] = True
                if n.t == "Global":
                    globs.update(n.names)
                if n.t == "Assign":
                    for t in n.targets:
                        target(t)
                if n.t in ("AugAssign", "For", "comprehension"):
                    target(n.target)
                if n.t == "Delete":
                    for t in n.targets:
                        target(t)
                if n.t in ("Import", "ImportFrom"):
                    for a in n.names:
                        names.add(a.asname or a.name.split(".")[0])
                if n.t == "With" and n.optional_vars is not None:
                    target(n.optional_vars)
                if n.t == "ExceptHandler" and isinstance(n.name, Node):
                    target(n.name)
                for v in n.__dict__.values():
                    walk(v)
            walk(node.body if isinstance(node.body, list) else [node.body])

            def params(a):
                for x in a.args:
                    target(x)
                for x in (a.vararg, a.kwarg):
                    if x:
                        names.add(x if isinstance(x, str) else x.v)
            params(node.args)
            self.localcache[k] = (names - globs, gen[0])
        return self.localcache[k]

    def make_func(self, node, fr, name, islambda=False, owner=None):
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        _, gen = self.locals_of(node)
        prefix = getattr(fr, "qual", "")
        mod = self.frame_module(fr)
        return Func(node, mod, fr.env if not getattr(fr, "classbody", False) else fr.outer_env, name, defaults, owner,
                    "%s:%s%s" % (mod, prefix, name), gen, islambda)

    def frame_module(self, fr):
        return fr.module if fr.func is None else fr.func.module

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = {}
        names = a.args
        kw = dict(kw)
        args = list(args)
        n = len(names)
        vararg = a.vararg if isinstance(a.vararg, str) or a.vararg is None else a.vararg.v
        kwarg = a.kwarg if isinstance(a.kwarg, str) or a.kwarg is None else a.kwarg.v
        if len(args) > n and not vararg:
            self.throw("TypeError", "%s() takes at most %d arguments (%d given)" % (f.name, n, len(args)))
        late = []
        for k, p in enumerate(names):
            pn = p.id if p.t == "Name" else None
            if k < len(args):
                if pn in kw:
                    self.throw("TypeError", "multiple values for %s" % pn)
                v = args[k]
            elif pn in kw:
                v = kw.pop(pn)
            else:
                d = k - (n - len(f.defaults))
                if d < 0:
                    self.throw("TypeError", "%s() misses argument %s" % (f.name, pn))
                v = f.defaults[d]
            if pn is None:
                late.append((p, v))
            else:
                env[pn] = v
        if vararg:
            rest = args[n:]
            env[vararg] = rest[0].ref if rest and isinstance(rest[0], SymArgs) else tuple(rest)
        if kwarg:
            env[kwarg] = self.alloc(HDict([[k, v, None, None] for k, v in kw.items()]))
        elif kw:
            self.throw("TypeError", "%s() got an unexpected argument %s" % (f.name, sorted(kw)[0]))
        return env, late

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not getattr(self, "verifying", None) == f.qual:
            self.used_contracts.add(f.qual)
            return c(self, f, args, kw)
        env, late = self.bind_args(f, args, kw)
        e = self.alloc(HEnv(env, f.env))
        names, gen = self.locals_of(f.node)
        fr = Frame(f, e, names)
        fr.qual = f.qual.split(":", 1)[1] + "."
        if late:
            for p, v in late:
                self.assign(p, v, fr)
        self.executed.setdefault(f.qual, f.node.lineno)
        if f.isgen:
            return self.alloc(HGen(f, e))
        return self.run_body(f, fr)

    def run_body(self, f, fr):
        self.calldepth += 1
        if self.calldepth > MAX_DEPTH:
            self.calldepth -= 1
            raise Unsupported("recursion in %s" % f.qual)
        try:
            if f.islambda:
                return self.ev(f.node.body, fr)
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as e:
            if e.frame is not fr:
                raise
            return e.value
        finally:
            self.calldepth -= 1

    def run_generator(self, ref, cb):
        g = self.obj(ref)
        if g.done:
            return
        if g.control is not None:
            raise Unsupported("iteration over a generator that has been started with next()")
        g.done = True
        f = g.func
        names, _ = self.locals_of(f.node)
        fr = Frame(f, g.env, names)
        fr.qual = f.qual.split(":", 1)[1] + "."

        outside = self.calldepth

        def on_yield(v):
            inside, self.calldepth = self.calldepth, outside
            try:
                cb(v)
            except PyExc as e:
                raise ConsumerExc(e)
            finally:
                self.calldepth = inside
        fr.on_yield = on_yield
        try:
            self.run_body(f, fr)
        except ConsumerExc as e:
            raise e.exc

    def gen_next(self, ref):
        g = self.obj(ref)
        if g.done:
            self.throw("StopIteration", "")
        f = g.func
        names, _ = self.locals_of(f.node)
        fr = Frame(f, g.env, names)
        fr.step = True
        fr.qual = f.qual.split(":", 1)[1] + "."
        resume = g.control
        self.calldepth += 1
        try:
            self.exec_block(f.node.body, fr, resume)
        except YieldEx as e:
            self.obj(ref).control = tuple(e.path)
            return e.value
        except ReturnEx as e:
            if e.frame is not fr:
                raise
        except PyExc:
            self.obj(ref).done = True
            raise
        finally:
            self.calldepth -= 1
        self.obj(ref).done = True
        self.throw("StopIteration", "")

    # calls -----------------------------------------------------------------------------------------------------------
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.obj] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Stub):
            if f.call is None:
                self.throw("TypeError", "%r is not callable" % f)
            return f.call(self, list(args), kw)
        if isinstance(f, Descr):
            return self.call(f.f, args, kw)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, HInst):
                m = self.class_lookup(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f, o.cls), args, kw)
            self.throw("TypeError", "not callable")
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kw)
        if isinstance(f, Poison):
            raise Unsupported("calls %r" % f)
        if f is None or is_num(f) or is_str(f) or isinstance(f, tuple):
            self.throw("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def call_ext(self, f, args, kw):
        h = self.extern.get(f.path)
        if h is not None and not isinstance(h, ExtV):
            return self.call(h, args, kw)
        if "()" in self.ext_classes.get(f.path, {}):
            return self.call(self.ext_classes[f.path]["()"], args, kw)
        raise Unsupported("call of %s, which has no contract" % f.path)

    def instantiate(self, cls, args, kw):
        c = self.contracts.get("%s:%s" % (cls.module, cls.name))
        if c is not None:
            self.used_contracts.add("%s:%s" % (cls.module, cls.name))
            return c(self, cls, args, kw)
        r = self.alloc(HInst(cls, {}))
        init = self.class_lookup(cls, "__init__")
        if self.is_exc(cls):
            self.obj(r).attrs["args"] = tuple(args)
            if args:
                self.obj(r).attrs["message"] = args[0]
            if init is None:
                return r
        if init is not None:
            self.call(self.bind(init, r, cls), args, kw)
        elif args or kw:
            if any(isinstance(b, ExtV) and b.path not in self.ext_classes for b in cls.mro):
                raise Unsupported("constructor of %s" % cls.name)
            self.throw("TypeError", "object() takes no parameters")
        return r

    def is_exc(self, cls):
        return isinstance(cls, ClassV) and self.exc["BaseException"] in cls.mro

    def class_lookup(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassV):
                a = self.obj(c.env).attrs
                if name in a:
                    return a[name]
            elif isinstance(c, ExtV):
                d = self.ext_classes.get(c.path)
                if d is not None and name in d:
                    return d[name]
        return None

    def bind(self, f, obj, cls):
        if isinstance(f, (Func, Builtin)):
            return BoundM(obj, f)
        if isinstance(f, Descr):
            if f.kind == "property":
                return self.call(f.f, [obj], {})
            if f.kind == "classmethod":
                return BoundM(cls, f.f)
            return f.f
        return f

    # attributes ------------------------------------------------------------------------------------------------------
    def getattr_(self, v, name, default=ABSENT):
        r = self.lookup_attr(v, name)
        if r is not ABSENT:
            if isinstance(r, Poison):
                raise Unsupported("uses the value that a loop leaves in %s (%s)" % (name, r.why))
            return r
        if default is not ABSENT:
            return default
        self.throw("AttributeError", "%r has no attribute %s" % (v, name))

    def lookup_attr(self, v, name):
        from . import lib
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HInst):
                if name in o.attrs:
                    return o.attrs[name]
                m = self.class_lookup(o.cls, name)
                if m is not None or self.class_has(o.cls, name):
                    return self.bind(m, v, o.cls)
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    raise Unsupported("__dict__")
                g = self.class_lookup(o.cls, "__getattr__")
                if g is not None:
                    return self.call(self.bind(g, v, o.cls), [name], {})
                if any(isinstance(c, ExtV) and c.path not in self.ext_classes for c in o.cls.mro):
                    raise Unsupported("attribute %s of %s, which has a base class without a contract" %
                                      (name, o.cls.name))
                return ABSENT
            k = {HList: "list", HDict: "dict", HIter: "iter", HGen: "gen"}.get(type(o)) or \
                ("dict" if isinstance(o, HDict) else None)
            if k in ("list", "dict"):
                k = o.kind
            return lib.method(self, k, v, name)
        if is_str(v):
            return lib.method(self, "str", v, name)
        if isinstance(v, ModuleV):
            a = self.obj(v.env).attrs
            if name in a:
                return a[name]
            sub = v.name + "." + name
            if sub in self.source.modules:
                return self.load(sub)
            return ABSENT
        if isinstance(v, ClassV):
            m = self.class_lookup(v, name)
            if m is not None or self.class_has(v, name):
                if isinstance(m, Descr):
                    if m.kind == "classmethod":
                        return BoundM(v, m.f)
                    return m.f if m.kind == "staticmethod" else m
                return m
            if name == "__name__":
                return v.name
            if name == "__bases__":
                return tuple(v.bases)
            if name == "__dict__":
                return self.alloc(HDict([[n, x, None, None] for n, x in self.obj(v.env).attrs.items()]))
            if any(isinstance(c, ExtV) and c.path not in self.ext_classes for c in v.mro):
                raise Unsupported("attribute %s of %s" % (name, v.name))
            return ABSENT
        if isinstance(v, ExtV) and isinstance(self.extern.get(v.path), Stub):
            v = self.extern[v.path]
        if isinstance(v, Stub):
            if name in v.attrs:
                a = v.attrs[name]
                if callable(a) and not isinstance(a, (Builtin, Stub)):
                    return Stub(v.name + "." + name, call=lambda e, ar, kw, a=a: a(e, ar, kw))
                return a
            if "*" in v.attrs:
                return v.attrs["*"](self, name)
            return ABSENT
        if isinstance(v, ExtV):
            if v.path in self.ext_classes:
                d = self.ext_classes[v.path]
                if name in ("__bases__", "__dict__") and name not in d:
                    return () if name == "__bases__" else self.alloc(HDict([]))
                return d.get(name, ABSENT)
            return self.ext(v.path + "." + name)
        if isinstance(v, SuperV):
            cls = v.cls
            o = self.obj(v.obj)
            m = self.class_lookup(o.cls, name, after=cls)
            if m is None:
                rest = o.cls.mro[o.cls.mro.index(cls) + 1:]
                if any(isinstance(c, ExtV) and c.path not in self.ext_classes for c in rest):
                    raise Unsupported("super().%s of %s" % (name, cls.name))
                if name == "__init__":
                    return Builtin("object.__init__", lambda e, a, k: None)
                return ABSENT
            return self.bind(m, v.obj, o.cls)
        if isinstance(v, (Func, Builtin)):
            if name in ("__name__", "func_name"):
                return v.name
            if name == "__doc__":
                return None
            if name == "__module__":
                return getattr(v, "module", "builtins")
            if isinstance(v, Builtin) and self.builtins.get(v.name) is v:
                return lib.type_method(self, v.name, name)
            return ABSENT
        if isinstance(v, BoundM):
            if name in ("im_self", "__self__"):
                return v.obj
            if name in ("im_func", "__func__"):
                return v.func
            return self.lookup_attr(v.func, name)
        if isinstance(v, Partial):
            if name == "func":
                return v.f
            return ABSENT
        if isinstance(v, Descr):
            return ABSENT
        if isinstance(v, Poison):
            raise Unsupported("uses %r" % v)
        if isinstance(v, Sym) and v.kind == "obj":
            raise Unsupported("attribute %s of an opaque value" % name)
        if is_num(v) or v is None or isinstance(v, tuple):
            if isinstance(v, tuple) and name in ("index", "count"):
                raise Unsupported("tuple.%s" % name)
            return ABSENT
        raise Unsupported("attribute %s of %r" % (name, v))

    def class_has(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV) and name in self.obj(c.env).attrs:
                return True
            if isinstance(c, ExtV) and name in self.ext_classes.get(c.path, ()):
                return True
        return False

    def setattr_(self, v, name, x):
        if isinstance(v, ExtV) and isinstance(self.extern.get(v.path), Stub):
            v = self.extern[v.path]
        if isinstance(v, Ref) and isinstance(self.obj(v), HInst):
            o = self.obj(v)
            d = self.class_lookup(o.cls, name)
            if isinstance(d, Descr) and d.kind == "property":
                self.throw("AttributeError", "can't set attribute")
            m = self.class_lookup(o.cls, "__setattr__")
            if m is not None:
                raise Unsupported("__setattr__")
            o.attrs[name] = x
            return
        if isinstance(v, (ClassV, ModuleV)):
            self.obj(v.env).attrs[name] = x
            return
        if isinstance(v, Stub) and "=" in v.attrs:
            v.attrs["="](self, name, x)
            return
        raise Unsupported("sets attribute %s of %r" % (name, v))

    # subscripts ------------------------------------------------------------------------------------------------------
    def getitem(self, v, i):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                return self.list_get(v, i)
            if isinstance(o, HDict):
                e = self.dict_find(v, i)
                if e is None:
                    if getattr(o, "default", None) is not None:
                        x = self.call(o.default, [], {})
                        self.dict_set(v, i, x)
                        return x
                    self.throw("KeyError", i)
                return e[1]
            if isinstance(o, HInst):
                m = self.class_lookup(o.cls, "__getitem__")
                if m is not None:
                    return self.call(self.bind(m, v, o.cls), [i], {})
        if isinstance(v, tuple):
            if isinstance(i, int) and not isinstance(i, bool):
                if -len(v) <= i < len(v):
                    return v[i]
                self.throw("IndexError", "tuple index out of range")
            if is_int(i):
                return self.list_get(self.alloc(HList([list(v)])), i)
            self.throw("TypeError", "tuple indices")
        if is_str(v):
            return self.str_index(v, i)
        if isinstance(v, Stub) and "__getitem__" in v.attrs:
            return v.attrs["__getitem__"](self, [i], {})
        if v is None or is_num(v):
            self.throw("TypeError", "not subscriptable")
        raise Unsupported("subscript of %r" % (v,))

    def getslice(self, v, lo, hi):
        if isinstance(v, Ref) and isinstance(self.obj(v), HList):
            return self.alloc(HList(self.segs_slice(self.obj(v).segs, lo, hi)))
        if isinstance(v, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return v[lo:hi]
        if is_str(v):
            return self.str_slice(v, lo, hi)
        if v is None or is_num(v):
            self.throw("TypeError", "not subscriptable")
        raise Unsupported("slice of %r" % (v,))

    def setitem(self, v, i, x):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HList):
                return self.list_set(v, i, x)
            if isinstance(o, HDict):
                return self.dict_set(v, i, x)
            if isinstance(o, HInst):
                m = self.class_lookup(o.cls, "__setitem__")
                if m is not None:
                    return self.call(self.bind(m, v, o.cls), [i, x], {})
        if isinstance(v, (str, tuple)) or v is None or is_num(v):
            self.throw("TypeError", "does not support item assignment")
        if isinstance(v, Stub) and "__setitem__" in v.attrs:
            return v.attrs["__setitem__"](self, [i, x], {})
        raise Unsupported("item assignment to %r" % (v,))

    def delitem(self, v, i):
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HDict):
                return self.dict_del(v, i)
            if isinstance(o, HList):
                self.list_pop(v, i)
                return
        raise Unsupported("del of an item of %r" % (v,))

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Ref) and isinstance(self.obj(v), HList):
            ln = self.list_len(v)
            if not self.branch(self.eq(ln, n)):
                self.throw("ValueError", "unpack of a wrong number of values")
            return [self.list_get(v, k) for k in range(n)]
        elif isinstance(v, str):
            items = list(v)
        elif v is None or is_num(v):
            self.throw("TypeError", "not iterable")
        else:
            items = []
            self.iterate(v, items.append)
        if len(items) != n:
            self.throw("ValueError", "unpack of a wrong number of values")
        return items

    def contains(self, c, x):
        """bool or condition: x in c."""
        if isinstance(c, Ref):
            o = self.obj(c)
            if isinstance(o, HDict):
                return self.dict_contains(c, x)
            if isinstance(o, HList):
                return self.list_contains(c, x)
            if isinstance(o, HInst):
                m = self.class_lookup(o.cls, "__contains__")
                if m is not None:
                    return self.truth(self.call(self.bind(m, c, o.cls), [x], {}))
        if isinstance(c, tuple):
            return Or(*[self.eq(x, y) for y in c])
        if is_str(c):
            if not is_str(x):
                self.throw("TypeError", "'in <string>' requires string")
            return self.str_contains(c, x)
        if isinstance(c, Stub) and "__contains__" in c.attrs:
            return self.truth(c.attrs["__contains__"](self, [x], {}))
        if c is None or is_num(c):
            self.throw("TypeError", "not iterable")
        raise Unsupported("in %r" % (c,))

    def list_contains(self, ref, x):
        cs = []
        for s in self.norm_segs(self.obj(ref).segs):
            if isinstance(s, list):
                cs += [self.eq(x, y) for y in s]
            elif getattr(s, "contains", None):
                cs.append(s.contains(self, x))
            elif isinstance(s, Base):
                if cs and self.branch(Or(*cs)) or self.some_element(s, x):
                    return True
                cs = []
            else:
                raise Unsupported("membership in a symbolic list")
        return Or(*cs)

    def some_element(self, b, x):
        """Forks on whether an element of the sequence equals x."""
        if self.loops:
            raise Unsupported("membership in a symbolic list, in a loop")
        if self.choose(2):
            k = self.fresh("int", "place").t
            self.assume(z3.And(k >= 0, k < zi(b.n)))
            self.assume(zb(self.eq(self.elem(b, k), x)))
            return True

        def fact(e, i, v):
            c = e.eq(v, x)
            return [z3.Implies(z3.And(i >= zi(b.off), i < zi(b.off) + zi(b.n)) if b.root is not b else z3.BoolVal(True), z3.Not(zb(c)))]
        self.basefacts.setdefault(b.root.id, []).append(fact)
        for i, v in list(self.inst.get(b.root.id, ())):
            for c in fact(self, i, v):
                self.assume(c)
        return False

    # exceptions ------------------------------------------------------------------------------------------------------
    def throw(self, name, msg=""):
        cls = self.exc[name]
        r = self.alloc(HInst(cls, {"args": (msg,), "message": msg}))
        raise PyExc(r, cls)

    def exc_matches(self, cls, pat):
        if isinstance(pat, tuple):
            return any(self.exc_matches(cls, p) for p in pat)
        if isinstance(pat, ClassV):
            return pat in cls.mro
        if isinstance(pat, ExtV):
            if pat in cls.mro:
                return True
            raise Unsupported("except %s" % pat.path)
        raise Unsupported("except %r" % (pat,))

    # statements ------------------------------------------------------------------------------------------------------
    def exec_block(self, stmts, fr, resume=None):
        k0 = 0
        if resume:
            k0 = resume[0]
        for k in range(k0, len(stmts)):
            try:
                self.exec_stmt(stmts[k], fr, resume[1:] if resume and k == k0 else None)
            except YieldEx as e:
                e.path.insert(0, k)
                raise

    def exec_stmt(self, s, fr, resume=None):
        m = getattr(self, "st_" + s.t, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (s.t, s.lineno))
        if fr.func is not None:
            self.where = "%s line %s" % (fr.func.qual, s.lineno)
        if s.t in ("If", "While", "TryExcept", "TryFinally", "With", "For", "Expr"):
            return m(s, fr, resume)
        return m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr, resume=None):
        if s.value.t == "Yield":
            if resume is not None:
                return
            v = None if s.value.value is None else self.ev(s.value.value, fr)
            if fr.step:
                raise_y = YieldEx(v)
                raise raise_y
            if fr.on_yield is None:
                raise Unsupported("yield outside of a running generator")
            fr.on_yield(v)
            return
        if s.value.t == "Str":
            return
        self.ev(s.value, fr)

    def st_Assign(self, s, fr):
        if s.value.t == "Yield":
            raise Unsupported("value of a yield")
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def assign(self, t, v, fr):
        if t.t == "Name":
            self.set_name(t.id, v, fr)
        elif t.t == "Attribute":
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif t.t == "Subscript":
            o = self.ev(t.value, fr)
            if t.slice.t == "Index":
                self.setitem(o, self.ev(t.slice.value, fr), v)
            elif t.slice.t == "Slice" and t.slice.lower is None and t.slice.upper is None and \
                    isinstance(o, Ref) and isinstance(self.obj(o), HList):
                new = self.alloc(HList([]))
                self.list_extend(new, v)
                self.obj(o).segs = self.obj(new).segs
            else:
                raise Unsupported("slice assignment")
        elif t.t in ("Tuple", "List"):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        else:
            raise Unsupported("assignment to %s" % t.t)

    def set_name(self, name, v, fr):
        if name in fr.globals_:
            e = self.obj(fr.env)
            while e.parent is not None:
                e = self.obj(e.parent)
            e.attrs[name] = v
            return
        self.obj(fr.env).attrs[name] = v

    def st_AugAssign(self, s, fr):
        t = s.target
        op = s.op.t
        if t.t == "Name":
            cur = self.get_name(t.id, fr)
            self.set_name(t.id, self.aug(op, cur, self.ev(s.value, fr)), fr)
        elif t.t == "Attribute":
            o = self.ev(t.value, fr)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.aug(op, cur, self.ev(s.value, fr)))
        elif t.t == "Subscript" and t.slice.t == "Index":
            o = self.ev(t.value, fr)
            i = self.ev(t.slice.value, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.aug(op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if op == "Add" and isinstance(cur, Ref) and isinstance(self.obj(cur), HList):
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if t.t == "Name":
                e = self.obj(fr.env)
                if t.id not in e.attrs:
                    self.throw("NameError", t.id)
                del e.attrs[t.id]
            elif t.t == "Subscript" and t.slice.t == "Index":
                self.delitem(self.ev(t.value, fr), self.ev(t.slice.value, fr))
            elif t.t == "Attribute":
                o = self.ev(t.value, fr)
                if isinstance(o, Ref) and isinstance(self.obj(o), HInst):
                    if t.attr not in self.obj(o).attrs:
                        self.throw("AttributeError", t.attr)
                    del self.obj(o).attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def st_Return(self, s, fr):
        raise ReturnEx(fr, None if s.value is None else self.ev(s.value, fr))

    def st_If(self, s, fr, resume=None):
        if resume:
            br, rest = resume[0], resume[1:]
            blk = s.body if br else s.orelse
        else:
            rest = None
            br = self.branch(self.cond(s.test, fr))
            blk = s.body if br else s.orelse
        try:
            self.exec_block(blk, fr, rest)
        except YieldEx as e:
            e.path.insert(0, br)
            raise

    def cond(self, node, fr):
        """Truth of an expression, as a condition where that is possible without evaluating too much."""
        if node.t == "UnaryOp" and node.op.t == "Not":
            return Not(self.cond(node.operand, fr))
        return self.truth(self.ev(node, fr))

    def st_While(self, s, fr, resume=None):
        rule = self.while_rules.get((fr.func.qual if fr.func else None))
        if rule is not None and resume is None:
            r = rule(self, s, fr)
            if r is not None:
                return
        token = object()
        n = 0
        first = resume
        while True:
            if first is None:
                if not self.branch(self.cond(s.test, fr)):
                    self.exec_block(s.orelse, fr)
                    return
            n += 1
            if n > MAX_UNROLL:
                raise Unsupported("while loop without an invariant in %s" % (fr.func.qual if fr.func else "?"))
            fr.loops.append(token)
            try:
                self.exec_block(s.body, fr, first)
            except ContinueEx as e:
                if e.token is not token:
                    raise
            except BreakEx as e:
                if e.token is not token:
                    raise
                return
            finally:
                fr.loops.pop()
            first = None

    def loop_body(self, s, fr, token):
        def cb(v):
            self.assign(s.target, v, fr)
            fr.loops.append(token)
            try:
                self.exec_block(s.body, fr)
            except ContinueEx as e:
                if e.token is not token:
                    raise
            finally:
                fr.loops.pop()
        return cb

    def st_For(self, s, fr, resume=None):
        if resume is not None or fr.step and self.has_yield(s):
            raise Unsupported("for loop in a generator that is run by next()")
        rule = self.for_rules.get((fr.func.qual if fr.func else None))
        if rule is not None and rule(self, s, fr) is not None:
            return
        it = self.ev(s.iter, fr)
        token = object()
        cb = self.loop_body(s, fr, token)
        cb.node = s
        try:
            self.iterate(it, cb)
        except BreakEx as e:
            if e.token is not token:
                raise
            return
        self.exec_block(s.orelse, fr)

    def has_yield(self, n):
        if isinstance(n, list):
            return any(self.has_yield(x) for x in n)
        if isinstance(n, Node):
            return n.t == "Yield" or any(self.has_yield(x) for x in n.__dict__.values())
        return False

    def st_Break(self, s, fr):
        raise BreakEx(fr.loops[-1])

    def st_Continue(self, s, fr):
        raise ContinueEx(fr.loops[-1])

    def st_TryExcept(self, s, fr, resume=None):
        try:
            try:
                self.exec_block(s.body, fr, resume[1:] if resume else None)
            except YieldEx as e:
                e.path.insert(0, "body")
                raise
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.cls, self.ev(h.type, fr)):
                    if h.name is not None:
                        if isinstance(h.name, Node):
                            self.assign(h.name, e.ref, fr)
                        else:
                            self.set_name(h.name, e.ref, fr)
                    fr.exc.append(e)
                    try:
                        if fr.step and self.has_yield(h.body):
                            raise Unsupported("yield in an except clause")
                        self.exec_block(h.body, fr)
                    finally:
                        fr.exc.pop()
                    return
            raise
        self.exec_block(s.orelse, fr)

    def st_TryFinally(self, s, fr, resume=None):
        if resume is not None:
            raise Unsupported("yield in try-finally")
        try:
            self.exec_block(s.body, fr)
        except (PyExc, ConsumerExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def st_With(self, s, fr, resume=None):
        if resume is not None:
            raise Unsupported("yield in with")
        m = self.ev(s.context_expr, fr)
        v = self.call(self.getattr_(m, "__enter__"), [], {})
        if s.optional_vars is not None:
            self.assign(s.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except PyExc as e:
            r = self.call(self.getattr_(m, "__exit__"), [e.cls, e.ref, None], {})
            if self.branch(self.truth(r)):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx, ConsumerExc):
            self.call(self.getattr_(m, "__exit__"), [None, None, None], {})
            raise
        self.call(self.getattr_(m, "__exit__"), [None, None, None], {})

    def st_Raise(self, s, fr):
        if s.type is None:
            if fr.exc:
                raise fr.exc[-1]
            raise Unsupported("raise without an exception")
        t = self.ev(s.type, fr)
        if isinstance(t, ClassV):
            if s.inst is not None:
                v = self.ev(s.inst, fr)
                if not (isinstance(v, Ref) and isinstance(self.obj(v), HInst) and t in self.obj(v).cls.mro):
                    v = self.call(t, [v], {})
            else:
                v = self.call(t, [], {})
            raise PyExc(v, t)
        if isinstance(t, Ref) and isinstance(self.obj(t), HInst):
            raise PyExc(t, self.obj(t).cls)
        if isinstance(t, ExtV):
            c = self.exc_class(t.path)
            raise PyExc(self.alloc(HInst(c, {"args": ()})), c)
        raise Unsupported("raise %r" % (t,))

    def st_Assert(self, s, fr):
        if not self.branch(self.cond(s.test, fr)):
            self.throw("AssertionError", "")

    def st_Global(self, s, fr):
        fr.globals_ = tuple(fr.globals_) + tuple(s.names)

    def st_Print(self, s, fr):
        for v in s.values:
            self.ev(v, fr)

    def st_Import(self, s, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname:
                self.set_name(a.asname, self.import_(a.name), fr)
            else:
                if a.name in self.source.modules:
                    self.load(a.name)
                self.set_name(top, self.import_(top), fr)

    def st_ImportFrom(self, s, fr):
        if s.module == "__future__":
            return
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import *")
            full = s.module + "." + a.name
            if s.module in self.source.modules:
                v = self.getattr_(self.load(s.module), a.name)
            elif full in self.source.modules:
                v = self.load(full)
            else:
                v = self.ext(full)
            self.set_name(a.asname or a.name, v, fr)

    def st_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            f = self.call(dv, [f], {})
        self.set_name(s.name, f, fr)

    def st_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Builtin) and b.name == "object")]
        out = []
        for b in bases:
            if isinstance(b, (ClassV, ExtV)):
                out.append(b)
            elif isinstance(b, Builtin):
                out.append(ExtV("builtin." + b.name))
            elif isinstance(b, Stub):
                out.append(ExtV("stub." + b.name))
            else:
                raise Unsupported("base class %r" % (b,))
        env = self.alloc(HEnv({}, fr.env))
        cf = Frame(fr.func, env, None)
        cf.classbody = True
        cf.outer_env = fr.env if not getattr(fr, "classbody", False) else fr.outer_env
        cf.module = self.frame_module(fr)
        cf.qual = getattr(fr, "qual", "") + s.name + "."
        self.exec_block(s.body, cf)
        c = ClassV(s.name, out, env, self.frame_module(fr))
        for v in self.obj(env).attrs.values():
            if isinstance(v, Func):
                v.owner = c
            elif isinstance(v, Descr) and isinstance(v.f, Func):
                v.f.owner = c
        self.obj(env).parent = None
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, fr), [c], {})
        self.set_name(s.name, c, fr)

    # names -----------------------------------------------------------------------------------------------------------
    def get_name(self, name, fr):
        r = fr.env
        first = True
        while r is not None:
            e = self.obj(r)
            if name in e.attrs:
                v = e.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("uses the value that a loop leaves in %s (%s)" % (name, v.why))
                return v
            if first and fr.locals is not None and name in fr.locals and not (fr.func and fr.func.islambda):
                self.throw("UnboundLocalError", name)
            first = False
            r = e.parent
        if name in self.builtins:
            return self.builtins[name]
        if name in self.exc:
            return self.exc[name]
        self.throw("NameError", name)

    # expressions -------------------------------------------------------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, "ex_" + n.t, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (n.t, n.lineno))
        return m(n, fr)

    def ex_Name(self, n, fr):
        if n.id == "None":
            return None
        if n.id == "True":
            return True
        if n.id == "False":
            return False
        return self.get_name(n.id, fr)

    def ex_Num(self, n, fr):
        c = n.n
        if c.kind == "int":
            return int(c.v)
        if c.kind == "float":
            return Fraction(c.v)
        raise Unsupported("number %s" % c.v)

    def ex_Str(self, n, fr):
        return n.s.v

    def ex_Tuple(self, n, fr):
        return tuple(self.ev(x, fr) for x in n.elts)

    def ex_List(self, n, fr):
        return self.alloc(HList([[self.ev(x, fr) for x in n.elts]]))

    def ex_Dict(self, n, fr):
        d = self.alloc(HDict([]))
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, fr)
            self.dict_set(d, self.ev(k, fr), vv)
        return d

    def ex_Set(self, n, fr):
        d = self.alloc(HDict([], kind="set"))
        for v in n.elts:
            self.set_add(d, self.ev(v, fr))
        return d

    def ex_Attribute(self, n, fr):
        return self.getattr_(self.ev(n.value, fr), n.attr)

    def ex_Subscript(self, n, fr):
        v = self.ev(n.value, fr)
        if n.slice.t == "Index":
            return self.getitem(v, self.ev(n.slice.value, fr))
        if n.slice.t == "Slice":
            if n.slice.step is not None:
                raise Unsupported("slice with a step")
            lo = None if n.slice.lower is None else self.ev(n.slice.lower, fr)
            hi = None if n.slice.upper is None else self.ev(n.slice.upper, fr)
            return self.getslice(v, lo, hi)
        raise Unsupported("subscript")

    def star_args(self, f, args, sv):
        """f(*sv) where the length of sv is not known: it fills the positional parameters, and what is left the one with a star."""
        g, n = f, len(args)
        if isinstance(g, BoundM):
            g, n = g.func, n + 1
        if not isinstance(g, Func) or not (isinstance(sv, Ref) and isinstance(self.obj(sv), HList)):
            raise Unsupported("call with a symbolic number of arguments")
        a = g.node.args
        room = max(0, len(a.args) - n)
        length = self.list_len(sv)
        for j in range(room + 1):
            if self.branch(self.eq(length, j)):
                return [self.list_get(sv, i) for i in range(j)]
        if a.vararg is None:
            self.throw("TypeError", "%s() takes at most %d arguments" % (g.name, len(a.args)))
        segs = self.norm_segs(self.obj(sv).segs)
        return [self.list_get(sv, i) for i in range(room)] + [SymArgs(self.alloc(HList(self.segs_slice(segs, room, None))))]

    def ex_Call(self, n, fr):
        if n.func.t == "Name" and n.func.id == "super" and len(n.args) == 2:
            c, o = self.ev(n.args[0], fr), self.ev(n.args[1], fr)
            return SuperV(c, o)
        f = self.ev(n.func, fr)
        args = [self.ev(a, fr) for a in n.args]
        if n.starargs is not None:
            sv = self.ev(n.starargs, fr)
            items = self.concrete_items(sv)
            if items is None:
                items = self.star_args(f, args, sv)
            args += items
        kw = {}
        for k in n.keywords:
            a = k.arg if isinstance(k.arg, str) else k.arg.v
            kw[a] = self.ev(k.value, fr)
        if n.kwargs is not None:
            d = self.ev(n.kwargs, fr)
            o = self.obj(d)
            if o.rest is not None or o.comps:
                raise Unsupported("call with symbolic keyword arguments")
            for e in self.live(o):
                if not isinstance(e[0], str):
                    raise Unsupported("call with symbolic keyword arguments")
                kw[e[0]] = e[1]
        return self.call(f, args, kw)

    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op.t, a, self.ev(n.right, fr))

    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if n.op.t == "Not":
            return self.mk(Not(self.truth(v)))
        if n.op.t == "USub":
            return self.neg(v)
        if n.op.t == "UAdd":
            return v
        raise Unsupported("operator %s" % n.op.t)

    def ex_BoolOp(self, n, fr):
        isand = n.op.t == "And"
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, fr)
            if k == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if t != isand:
                return v
        return v

    def ex_IfExp(self, n, fr):
        if self.branch(self.cond(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        cs = []
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op.t, left, right)
            if k < len(n.ops) - 1:
                if not self.branch(c):
                    return False
            else:
                return self.mk(c)
            left = right

    def compare(self, op, a, b):
        if isinstance(a, NonFin) or isinstance(b, NonFin):
            if op in ("Lt", "Gt", "LtE", "GtE"):
                raise Unsupported("order of a non-finite float")
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return Not(self.eq(a, b))
        if op == "Lt":
            return self.lt(a, b)
        if op == "Gt":
            return self.lt(b, a)
        if op == "LtE":
            return self.le(a, b)
        if op == "GtE":
            return self.le(b, a)
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return Not(self.is_(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return Not(self.contains(b, a))
        raise Unsupported("comparison %s" % op)

    def ex_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda:%s>" % n.lineno, True)

    def comp_loop(self, gens, k, fr, emit):
        if k == len(gens):
            emit()
            return
        g = gens[k]

        def cb(v):
            self.assign(g.target, v, fr)
            for c in g.ifs:
                if not self.branch(self.cond(c, fr)):
                    return
            self.comp_loop(gens, k + 1, fr, emit)
        self.iterate(self.ev(g.iter, fr), cb)

    def ex_ListComp(self, n, fr):
        out = self.alloc(HList([]))
        self.comp_loop(n.generators, 0, fr, lambda: self.list_append(out, self.ev(n.elt, fr)))
        return out

    def ex_SetComp(self, n, fr):
        out = self.alloc(HDict([], kind="set"))
        self.comp_loop(n.generators, 0, fr, lambda: self.set_add(out, self.ev(n.elt, fr)))
        return out

    def ex_DictComp(self, n, fr):
        out = self.alloc(HDict([]))

        def emit():
            k = self.ev(n.key, fr)
            self.dict_set(out, k, self.ev(n.value, fr))
        self.comp_loop(n.generators, 0, fr, emit)
        return out

    def ex_GeneratorExp(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        env = self.alloc(HEnv({}, fr.env if not getattr(fr, "classbody", False) else fr.outer_env))
        gf = Frame(fr.func, env, None)
        gf.module = self.frame_module(fr)
        gf.qual = getattr(fr, "qual", "")
        state = {"used": False}

        def run(eng, cb):
            g = n.generators[0]

            def one(v):
                eng.assign(g.target, v, gf)
                for c in g.ifs:
                    if not eng.branch(eng.cond(c, gf)):
                        return
                eng.comp_loop(n.generators, 1, gf, lambda: cb(eng.ev(n.elt, gf)))
            eng.iterate(first, one)
        return LazyIter(run, "genexp")

    def ex_Yield(self, n, fr):
        raise Unsupported("yield as an expression")

    def ex_Repr(self, n, fr):
        return self.fresh("str", "repr")
