"""Running the contract files: sections, their obligations, and the evidence of a run."""
import importlib.util
import multiprocessing
import os
import resource
import sys
import time
import traceback

import z3

from .core import (BoundM, Builtin, HDict, HInst, HList, PathEnd, Ref, Stub, Sym, Undecided, Unsupported, lift, zi, zr, zs)
from .interp import Interp
from .loader import Source
from .ops import And, Not, Or
from .seqs import BreakEx, ConsumerExc, ContinueEx, PyExc, ReturnEx


class Proof(object):
    """What a section of a contract file works with: an engine with the code under verification loaded, and helpers to
    set up an arbitrary state that satisfies the preconditions."""

    def __init__(self, source, section, timeout_ms=10000, deadline=None):
        self.e = Interp(source, timeout_ms=timeout_ms, deadline=deadline)
        self.section = section
        self.notes = []
        for m in sorted(source.modules):        # before any exploration, which would forget what it loads
            try:
                self.e.load(m)
            except Unsupported:
                pass
        self.e.executed.clear()

    def load(self, *modules):
        for m in modules:
            self.e.load(m)

    def get(self, path):
        return self.e.get(path)

    # values
    def int(self, n="n"):
        return self.e.fresh("int", n)

    def float(self, n="x"):
        return self.e.fresh("float", n)

    def str(self, n="s"):
        return self.e.fresh("str", n)

    def obj_(self, n="o"):
        return self.e.fresh("obj", n)

    def list(self, *items):
        return self.e.alloc(HList([list(items)]))

    def trace(self):
        return self.e.alloc(HList([]))

    def base(self, name, kind, **kw):
        return self.e.raw_base(name, kind, **kw)

    def listof(self, base, kind="list"):
        return self.e.alloc(HList([base], kind))

    def dict(self, items=()):
        return self.e.alloc(HDict([[k, v, None, None] for k, v in items]))

    def instance(self, path, attrs):
        """An instance in the given state (the constructor is not run: for arbitrary states)."""
        return self.e.alloc(HInst(self.get(path), attrs))

    def new(self, path, *args, **kw):
        return self.e.call(self.get(path), list(args), kw)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.e.call(f, list(args), kw)

    def m(self, obj, name, *args, **kw):
        return self.e.call(self.e.getattr_(obj, name), list(args), kw)

    def a(self, obj, name):
        return self.e.getattr_(obj, name)

    def set(self, obj, name, v):
        self.e.obj(obj).attrs[name] = v

    def stub(self, name, attrs=None, call=None):
        return Stub(name, attrs or {}, call)

    def recorder(self, trace, tag=None, ret=None):
        """A callable that appends its arguments to a trace."""
        def f(e, args, kw):
            e.list_append(trace, tuple(([tag] if tag is not None else []) + list(args) + [v for _, v in sorted(kw.items())]))
            return ret(e, args, kw) if callable(ret) else ret
        return Builtin(tag or "recorder", f)

    def external(self, path, f):
        """Another contract for a library function (also where it is already imported)."""
        if path in self.e.extern:
            self.e.extern[path].fn = f
        else:
            self.e.extern[path] = Builtin(path, f)

    # logic
    def assume(self, c):
        self.e.assume(c)

    def prove(self, c, name):
        return self.e.prove(c, "%s: %s" % (self.section, name))

    def eq(self, a, b, name):
        """The two values are equal as Python values."""
        try:
            c = self.e.eq(a, b)
        except Unsupported as x:
            self.undischarged(name, "equality out of reach: %s (%s and %s)" % (x, self.show(a), self.show(b)))
            return
        self.prove(c, name)

    def valid(self, c):
        """Whether c certainly holds here (no obligation)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return self.e.check([z3.Not(c)], self.e.branch_ms)[0] == z3.unsat

    def same(self, a, b, name):
        self.prove(self.e.is_(a, b), name)

    def decided(self, ok, name, backend, detail="", model=None):
        """An obligation decided by another complete procedure."""
        e = self.e
        if e.outer_replay or e.replaying() or e.silent:
            return
        name = "%s: %s" % (self.section, name)
        if ok:
            e.obligations.setdefault(name, [0, 0])[0] += 1
            e.backends[backend] = e.backends.get(backend, 0) + 1
        else:
            e.fail(name, "sat", None, detail)

    def undischarged(self, name, why):
        e = self.e
        if e.outer_replay or e.replaying():
            return
        e.fail("%s: %s" % (self.section, name), "unsupported", None, why)

    def show(self, v, depth=0):
        e = self.e
        if isinstance(v, Ref) and depth < 3:
            o = e.obj(v)
            if isinstance(o, HList):
                return "[%s]" % ", ".join(str([self.show(x, depth + 1) for x in s]) if isinstance(s, list) else repr(s)
                                          for s in o.segs)
            if isinstance(o, HDict):
                return "{%s; rest %s; comps %s}" % (", ".join("%s: %s" % (self.show(k[0], depth + 1), self.show(k[1], depth + 1))
                                                             for k in o.entries), o.rest, o.comps)
        if isinstance(v, tuple):
            return "(%s)" % ", ".join(self.show(x, depth + 1) for x in v)
        return repr(v)[:300]

    def no_raise(self, fn, name="raises nothing"):
        """fn() and the obligation that it raises no exception."""
        try:
            r = fn()
        except PyExc as x:
            self.e.prove(False, "%s: %s" % (self.section, name + " (%s)" % x.cls.name))
            raise PathEnd()
        self.prove(True, name)
        return r

    def raises(self, fn, cls, name):
        try:
            fn()
        except PyExc as x:
            self.prove(self.e.exc[cls] in x.cls.mro if cls in self.e.exc else False, name)
            return x
        self.prove(False, name)

    def paths(self, fn):
        """Explores fn over all paths; any exception that leaves it is a failed obligation."""
        e = self.e

        def one():
            try:
                fn()
            except PyExc as x:
                e.prove(False, "%s: no uncaught %s" % (self.section, x.cls.name))
                raise PathEnd()
            except (BreakEx, ContinueEx, ReturnEx) as x:
                raise Unsupported("control left the section: %r" % x)
            except Unsupported as x:
                if e.replaying() or e.outer_replay:
                    raise PathEnd()
                if not getattr(e, "lenient", False) and os.environ.get("PYDED_TRACE"):
                    traceback.print_exc()
                r, _ = e.check([], e.timeout_ms)
                if r == z3.unsat:
                    raise PathEnd()
                e.fail("%s: within the verified subset" % self.section, "unsupported", None, str(x))
                raise PathEnd()
            e.cover(self.section)
        e.explore(one)


SECTIONS = []


def section(name, timeout_ms=None):
    at = sys._getframe(1).f_globals.get("__name__", "")

    def deco(fn):
        if not at.startswith("contracts."):     # (another contract file, imported for its sections)
            SECTIONS.append((name, fn, timeout_ms))
        return fn
    return deco


def run_section(source, name, fn, timeout_ms, deadline):
    t0 = time.time()
    out = {"section": name, "failures": [], "obligations": {}, "covers": {}, "executed": {}, "contracts": [],
           "backends": {}, "solver_time": 0, "queries": 0, "paths": 0, "summaries": 0, "notes": []}
    p = None
    try:
        p = Proof(source, name, timeout_ms or 10000, deadline)
        fn(p)
    except (Unsupported, Undecided) as x:
        if os.environ.get("PYDED_TRACE"):
            traceback.print_exc()
        out["failures"].append({"obligation": "%s: within the verified subset" % name, "verdict": "unsupported",
                                "model": {}, "detail": str(x), "path": [], "at": None})
    except Exception:
        out["failures"].append({"obligation": "%s: verifier" % name, "verdict": "error", "model": {},
                                "detail": traceback.format_exc()[-3000:], "path": [], "at": None})
    if p is not None:
        e = p.e
        for f in e.failures:
            f = dict(f)
            f.pop("raw_model", None)
            out["failures"].append(f)
        for d in e.order_conflicts():
            out["failures"].append({"obligation": "%s: within the verified subset" % name, "verdict": "unsupported", "model": {},
                                    "detail": "%s is gone over in several orders" % d, "path": [], "at": None})
        out["obligations"] = e.obligations
        out["covers"] = e.covers
        out["executed"] = {q: l for q, l in e.executed.items()}
        out["contracts"] = sorted(e.used_contracts)
        out["backends"] = e.backends
        out["solver_time"] = round(e.solver_time, 3)
        out["queries"] = e.queries
        out["paths"] = e.paths_run
        out["summaries"] = e.summaries
        out["notes"] = p.notes
        n = sum(a + b for a, b in e.obligations.values())
        if not out["failures"]:
            if n == 0:
                out["failures"].append({"obligation": "%s: generates obligations" % name, "verdict": "vacuous",
                                        "model": {}, "detail": "no obligation was generated", "path": [], "at": None})
            elif not any(e.covers.values()):
                out["failures"].append({"obligation": "%s: is reachable" % name, "verdict": "vacuous", "model": {},
                                        "detail": "no path of this section is feasible", "path": [], "at": None})
    out["wall"] = round(time.time() - t0, 2)
    return out


def load_contract(path):
    del SECTIONS[:]
    spec = importlib.util.spec_from_file_location("contract_" + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m, list(SECTIONS)


def _child(conn, source, name, fn, tmo, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = run_section(source, name, fn, tmo, deadline)
    except BaseException:
        r = {"section": name, "failures": [{"obligation": "%s: verifier" % name, "verdict": "error", "model": {},
                                            "detail": traceback.format_exc()[-3000:], "path": [], "at": None}],
             "obligations": {}, "covers": {}, "executed": {}, "contracts": [], "backends": {}, "solver_time": 0,
             "queries": 0, "paths": 0, "summaries": 0, "notes": [], "wall": 0}
    conn.send(r)
    conn.close()


def run_contract(path, root, jobs=7, only=None, budget=420):
    """All sections of a contract file on the source tree at root; each in a process of its own."""
    t0 = time.time()
    m, secs = load_contract(path)
    source = Source(root)
    deadline = t0 + budget
    todo = [s for s in secs if only is None or only in s[0]]
    ctx = multiprocessing.get_context("fork")
    running, results = [], []
    if only is not None and jobs == 1:
        return m, source, [run_section(source, n, f, t, deadline) for n, f, t in todo]
    while todo or running:
        while todo and len(running) < jobs:
            n, f, t = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(b, source, n, f, t, deadline))
            pr.start()
            b.close()
            running.append((n, pr, a, time.time()))
        still = []
        for n, pr, a, t in running:
            done = a.poll(0.02)
            if done:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({"section": n, "failures": [{"obligation": "%s: verifier" % n, "verdict": "error",
                                    "model": {}, "detail": "the verifier process died", "path": [], "at": None}],
                                    "obligations": {}, "covers": {}, "executed": {}, "contracts": [], "backends": {},
                                    "solver_time": 0, "queries": 0, "paths": 0, "summaries": 0, "notes": [], "wall": 0})
                pr.join()
            elif time.time() > deadline + 30:
                pr.kill()
                pr.join()
                results.append({"section": n, "failures": [{"obligation": "%s: verifier" % n, "verdict": "timeout",
                                "model": {}, "detail": "out of time", "path": [], "at": None}],
                                "obligations": {}, "covers": {}, "executed": {}, "contracts": [], "backends": {},
                                "solver_time": 0, "queries": 0, "paths": 0, "summaries": 0, "notes": [],
                                "wall": round(time.time() - t, 2)})
            else:
                still.append((n, pr, a, t))
        running = still
    return m, source, results
