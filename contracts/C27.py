"""The reactor's inspector: any number of checks, any answers of the reactor at any time, by an invariant of the inspector's loop.  The reactor
and the inspector share the queue only; what the reactor may do at any moment (answer any number of the probes, in their order) is what the
stubs for the queue allow at each of the inspector's calls."""
import z3
from pyded.core import ExtV, HDict, HEnv, HInst, HList, Ref, Sym, Unsupported, zi, zr
from pyded.interp import BreakEx, ContinueEx
from pyded.proof import PathEnd, PyExc, section
from contracts.common import *

R = "txstatsd.report:"
FUNCTIONS = ["ReactorInspector.run/stop/start/__init__/dump_frames", "ReactorInspectorService.__init__/startService/stopService"]
TRUSTED = ["Queue.Queue: a thread-safe FIFO queue; get_nowait raises Queue.Empty when there is nothing in it",
           "reactor.callFromThread runs what it is given in the reactor's thread, in order, each once", "threading.Thread.start runs run() in a new thread"]
ASSUMPTIONS = ["time.time() never decreases", "nothing but the inspector takes from its queue", "gauges and log entries cannot fail (not even when the disk is full)"]
NAME = "ReactorInspector.run"


def names_assigned(body):
    """The names the statements assign, but not those of functions defined in them."""
    out = set()

    def walk(n):
        t = type(n).__name__
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not hasattr(n, "_fields") and not hasattr(n, "t"):
            return
        kind = getattr(n, "t", t)
        if kind in ("FunctionDef", "Lambda", "ClassDef"):
            if kind == "FunctionDef":
                out.add(n.name)
            return
        if kind == "Name":
            out.add(n.id)
        for v in vars(n).values():
            if isinstance(v, list) or hasattr(v, "t") or hasattr(v, "_fields"):
                walk(v)
    walk(body)
    return out


class Inspection(object):
    def __init__(self, p):
        self.p, e = p, p.e
        self.m, self.c = z3.IntVal(0), z3.IntVal(0)     # probes sent before this check; answers taken
        self.sent = 0                                   # probes sent in this check
        self.T, self.S, self.E = [z3.Function(x, z3.IntSort(), z3.RealSort()) for x in ("sent_at", "answered_at", "check_before")]
        self.now = None
        self.state, self.certain = 0, False
        self.gauges, self.logs, self.puts, self.tasks, self.got = [], [], [], [], []
        self.stopped = None
        p.external("time.time", lambda e, a, k: self.tick())
        p.external("time.sleep", lambda e, a, k: self.turn())
        p.external("os.getpid", lambda e, a, k: 42)
        self.empty = e.exc_class("Queue.Empty")
        e.extern["Queue.Empty"] = self.empty
        for n, v in (("DEBUG", 10), ("WARNING", 30), ("CRITICAL", 50), ("INFO", 20), ("ERROR", 40)):
            e.extern["logging." + n] = v
        self.queue = p.stub("queue", {"get_nowait": Builtin("get_nowait", lambda e, a, k: self.get()), "empty": Builtin("empty", lambda e, a, k: self.is_empty()),
                                      "put": Builtin("put", lambda e, a, k: self.puts.append(a[0]))})
        self.metrics = p.stub("metrics", {"gauge": Builtin("gauge", lambda e, a, k: self.gauges.append((tuple(a), k, self.tick().t)))})
        self.log = Builtin("log", lambda e, a, k: self.logs.append((a, k)))
        e.ext_classes["threading.Thread"] = {}
        e.contracts[R + "ReactorInspector.dump_frames"] = lambda e, f, a, k: None
        self.o = p.instance(R + "ReactorInspector", {
            "running": True, "stopped": False, "queue": self.queue, "reactor_call": Builtin("reactor_call", lambda e, a, k: self.probe(a, k)), "loop_time": p.float("loop_time"),
            "last_responsive_ts": p.float("responsive"), "reactor_thread": 7, "metrics": self.metrics, "daemon": True, "log": self.log})
        e.while_rules[NAME] = e.while_rules[R + NAME] = e.while_rules["txstatsd.report." + NAME] = self.rule

    # what happens outside
    def tick(self):
        t = self.p.float("now")
        if self.now is not None:
            self.p.assume(t.t >= self.now)
        self.now = t.t
        return t

    def turn(self):
        """Others' turn: the inspector may be stopped."""
        p = self.p
        b = p.e.fresh("bool", "stopped")
        if self.stopped is not None:
            p.assume(z3.Implies(self.stopped, b.t))
        self.stopped = b.t
        p.set(self.o, "stopped", b)

    def probe(self, a, k):
        p = self.p
        p.decided(len(a) == 1 and not k, "a probe is one function", "syntactic")
        self.sent += 1
        if self.stopped is not None:
            p.prove(z3.Not(self.stopped), "no probe is sent after the inspector was stopped")
        x = self.answer(a[0])
        if self.sent == 1:
            t = self.T(self.m)
            p.assume(t == zr(x[1]))
            if self.head is not None:
                p.prove(z3.And(t >= self.head, t <= self.at_probe), "the time a probe is sent is read when it is sent")
            p.assume(z3.And(self.E(self.m) <= t))
        self.tasks.append(a[0])
        self.turn()

    def answer(self, task):
        """The reactor runs the probe: its number, when it was sent, and when it is answered."""
        p = self.p
        del self.puts[:]
        self.at_probe = self.now
        p.no_raise(lambda: p.call(task), "a probe raises nothing")
        p.decided(len(self.puts) == 1 and isinstance(self.puts[0], tuple) and len(self.puts[0]) == 3, "a probe's answer is one entry", "syntactic", repr(self.puts))
        if len(self.puts) != 1:
            raise PathEnd()
        x = self.puts[0]
        p.eq(x[0], Sym("int", self.m), "with the probe's number")
        p.prove(zr(x[2]) == self.now, "and the time of the answer")
        return x

    def pending(self):
        return self.c < self.m + self.sent

    def get(self):
        p, e = self.p, p_e(self)
        self.turn()
        if not self.certain:
            if not e.branch(self.pending()) or e.choose(2):
                self.got.append(None)
                self.waiting = (self.T(self.c), self.E(self.c), self.now)
                raise PyExc(e.alloc(HInst(self.empty, {"args": ()})), self.empty)
        self.certain = False
        k = self.c
        self.c = z3.simplify(self.c + 1)
        now = self.tick()
        p.assume(z3.And(self.S(k) >= self.T(k), self.S(k) <= now.t))
        self.got.append(k)
        return (Sym("int", k), Sym("float", self.T(k)), Sym("float", self.S(k)))

    def is_empty(self):
        e = p_e(self)
        self.turn()
        if self.certain:
            return False
        if e.branch(self.pending()) and e.choose(2):
            self.certain = True
            return False
        return True

    # the loops
    def rule(self, eng, s, fr):
        if self.state == 0:
            self.state = 1
            return self.checks(eng, s, fr)
        if self.state == 1:
            self.state = 2
            return self.drain(eng, s, fr)
        return None

    def roles(self, eng, fr, s):
        """What the variables stand for: those that are 0 count the probes, an empty list will have the times of the unanswered ones."""
        env = eng.obj(fr.env).attrs
        assigned = names_assigned(s.body) | names_assigned([s.test])
        counts = [k for k, v in env.items() if k in assigned and isinstance(v, int) and not isinstance(v, bool) and v == 0]
        lists = [k for k, v in env.items() if isinstance(v, Ref) and isinstance(eng.obj(v), HList) and not eng.obj(v).segs or
                 isinstance(v, Ref) and isinstance(eng.obj(v), HList) and eng.list_len(v) == 0]
        times = [k for k, v in env.items() if k in assigned and isinstance(v, Sym) and v.kind == "float"]
        return env, counts, lists, times

    def waiting_times(self, n):
        c = self.c
        return self.p.base("waiting", "float", n=z3.simplify(n), mk=lambda e, i: Sym("float", self.T(c + zi(i))))

    def body(self, eng, s, fr):
        """None when the body ran to its end, else True."""
        token = object()
        fr.loops.append(token)
        try:
            eng.exec_block(s.body, fr)
        except ContinueEx as x:
            if x.token is not token:
                raise
        except BreakEx as x:
            if x.token is not token:
                raise
            return True
        finally:
            fr.loops.pop()

    def checks(self, eng, s, fr):
        p = self.p
        self.tick()
        env, counts, lists, times = self.roles(eng, fr, s)
        first = self.now
        for k in times:
            p.prove(zr(env[k]) <= first, "times are not in the future")
        # any number of checks later
        m, c = p.int("checks"), p.int("answers")
        p.assume(z3.And(c.t >= 0, c.t <= m.t))
        self.m, self.c = m.t, c.t
        self.now = None
        self.head = self.tick().t
        i, j = z3.Ints("i_ j_")
        p.assume(z3.ForAll([i], z3.And(self.E(i) <= self.T(i), z3.Implies(i < m.t, self.T(i) <= self.head))))
        p.assume(self.E(m.t) <= self.head)
        self.ends = self.head
        for k in counts:
            env[k] = Sym("int", self.m)
        for k in lists:
            eng.obj(env[k]).segs = [self.waiting_times(self.m - self.c)]
        for k in times:
            v = p.float(k)
            env[k] = v
            p.assume(z3.And(v.t <= self.head, z3.If(c.t < m.t, z3.And(v.t >= self.E(c.t), v.t <= self.T(c.t)), v.t >= self.E(m.t))))
        attrs = eng.obj(self.o).attrs
        for k, v in attrs.items():
            if k == "last_responsive_ts":
                attrs[k] = p.float("responsive")
        self.turn()
        stopped = self.stopped
        heap = {a: (x.clone() if hasattr(x, "clone") else x) for a, x in eng.heap.items()}
        was = dict(env)
        on = eng.branch(eng.cond(s.test, fr))
        if not on:
            p.prove(self.stopped, "the inspector only ends when it is stopped")
            eng.exec_block(s.orelse, fr)
            return True
        p.prove(z3.Not(stopped), "no check begins after the inspector was stopped")
        if self.body(eng, s, fr):
            p.prove(self.stopped, "the inspector only ends when it is stopped")
            return True
        self.checked(counts, lists, times, env, eng, was, heap, s)
        raise PathEnd()

    def checked(self, counts, lists, times, env, eng, was, heap, s):
        p = self.p
        p.decided(self.sent == 1, "every check sends one probe", "syntactic", str(self.sent))
        p.decided(len(self.gauges) == 1, "every check reports one delay", "syntactic", repr(self.gauges))
        if self.sent != 1 or len(self.gauges) != 1:
            return
        args, kw, at = self.gauges[0]
        p.decided(len(args) == 2 and not kw and args[0] == "delay", "as the gauge delay", "syntactic", repr(args))
        d = zr(args[1])
        critical = any(k.get("logLevel") == 50 for a, k in self.logs)
        got = [k for k in self.got if k is not None]
        if not got:
            p.decided(self.got == [None], "the queue is looked at", "syntactic", repr(self.got))
            sent_at, before, then = self.waiting
            p.prove(d >= then - sent_at, "without an answer the delay is no shorter than since the oldest unanswered probe was sent")
            p.prove(d <= at - before, "and no longer than since the check before that")
            p.decided(critical, "without an answer there is a critical log entry", "syntactic", repr(self.logs))
        else:
            p.prove(z3.Or(*[d == self.S(k) - self.T(k) for k in got]), "with an answer the delay is the probe's round-trip time")
            p.decided(not critical, "with an answer there is no critical log entry", "syntactic", repr(self.logs))
        # the invariant holds for the next check
        self.tick()
        x = self.answer(self.tasks[0])
        p.prove(zr(x[1]) == self.T(self.m), "the probe says when it was sent, however late it is answered")
        m = z3.simplify(self.m + 1)
        for k in counts:
            p.prove(zi(env[k]) == m, "%s counts the probes" % k)
        j = p.int("j")
        n = z3.simplify(m - self.c)
        for k in lists:
            p.prove(zi(eng.list_len(env[k])) == n, "%s has a time for each unanswered probe" % k)
            p.assume(z3.And(j.t >= 0, j.t < n))
            if eng.branch(n > 0):
                p.prove(zr(eng.list_get(env[k], j)) == self.T(self.c + j.t), "which is when it was sent")
        if times:
            p.assume(self.E(m) == self.ends)
            p.prove(self.ends <= self.now, "times go on")
        for k in times:
            v = zr(env[k])
            p.prove(v <= self.now, "%s is not in the future" % k)
            if eng.branch(self.c < m):
                p.prove(v <= self.T(self.c), "%s is not after the oldest unanswered probe was sent" % k)
                p.prove(v >= self.E(self.c), "%s is not before the check before that" % k)
            else:
                p.prove(v >= self.ends, "%s is not before this check" % k)
        frame(eng, heap, env, was, self, set(counts) | set(lists) | set(times), s)

    def drain(self, eng, s, fr):
        """The late answers: any number of them is taken, in order."""
        p = self.p
        env = eng.obj(fr.env).attrs
        total = z3.simplify(self.m + self.sent)
        lists = []
        for k, v in env.items():
            if isinstance(v, Ref) and isinstance(eng.obj(v), HList):
                j = p.int("j")
                p.prove(zi(eng.list_len(v)) == total - self.c, "%s has a time for each unanswered probe, before the late answers" % k)
                lists.append(k)
        c0, c = self.c, p.int("late")
        p.assume(z3.And(c.t >= c0, c.t <= total))
        for k in lists:
            if eng.branch(total - c0 > 0):
                p.assume(z3.And(j.t >= 0, j.t < total - c0))
                p.prove(zr(eng.list_get(env[k], j)) == self.T(c0 + j.t), "%s: which is when it was sent, before the late answers" % k)
        self.c = c.t
        for k in lists:
            eng.obj(env[k]).segs = [self.waiting_times(total - self.c)]
        assigned = names_assigned(s.body)
        for k in assigned:
            if isinstance(env.get(k), Sym) and env[k].kind in ("int", "float"):
                env[k] = p.e.fresh(env[k].kind, k)
        gauges, tasks = len(self.gauges), len(self.tasks)
        self.certain = False
        if not eng.branch(eng.cond(s.test, fr)):
            eng.exec_block(s.orelse, fr)
            self.state = 1
            return True
        if self.body(eng, s, fr):
            self.state = 1
            return True
        p.decided(len(self.gauges) == gauges and len(self.tasks) == tasks, "late answers are not reported and send no probe", "syntactic")
        p.prove(self.c == c.t + 1, "one late answer is taken at a time, so that they come to an end")
        for k in lists:
            n = z3.simplify(total - self.c)
            p.prove(zi(eng.list_len(env[k])) == n, "%s has a time for each probe still unanswered" % k)
            if eng.branch(n > 0):
                q = p.int("q")
                p.assume(z3.And(q.t >= 0, q.t < n))
                p.prove(zr(eng.list_get(env[k], q)) == self.T(self.c + q.t), "%s: which is when it was sent, after a late answer" % k)
        raise PathEnd()


def p_e(x):
    return x.p.e


def frame(eng, heap, env, was, w, known, s):
    """Nothing else is carried from one check to the next."""
    lists = {was[k].a for k in known if isinstance(was.get(k), Ref)}
    for a, x in heap.items():
        now = eng.heap.get(a)
        if a in lists or isinstance(x, HEnv):
            continue
        if isinstance(x, HInst):
            changed = [k for k in set(x.attrs) | set(now.attrs) if k not in ("stopped", "last_responsive_ts") and not (x.attrs.get(k) is now.attrs.get(k) or x.attrs.get(k) == now.attrs.get(k))]
        elif isinstance(x, HList):
            changed = len(x.segs) != len(now.segs)
        elif isinstance(x, HDict):
            changed = len(x.entries) != len(now.entries) or len(x.comps) != len(now.comps)
        else:
            changed = False
        if changed:
            raise Unsupported("the inspector's loop changes something else (%s)" % (changed,))
    for k, v in env.items():
        if k in known or k not in was:
            continue
        u = was[k]
        if not (u is v or isinstance(u, Ref) and isinstance(v, Ref) and u.a == v.a or isinstance(u, (int, str)) and u == v):
            raise Unsupported("the inspector's loop carries %s" % k)


@section("run")
def run(p):
    def one():
        w = Inspection(p)
        w.head = None
        p.no_raise(lambda: p.m(w.o, "run"))
    p.paths(one)


@section("dump frames")
def dump_frames(p):
    """Whatever threads there are: one entry for each but the inspector's own, no error, and the inspector stays as it is."""
    def one():
        w = Inspection(p)
        e = p.e
        logged, current = p.trace(), p.int("current")
        N = z3.Function(e.name("thread"), z3.IntSort(), z3.IntSort())
        frames = p.base("frames", "obj", mk=lambda e, i: (Sym("int", N(zi(i))), p.stub("frame")))
        threads = p.stub("frames", {n: Builtin(n, lambda e, a, k: p.listof(frames)) for n in ("iteritems", "items")})
        p.external("sys._current_frames", lambda e, a, k: threads)
        p.external("threading.currentThread", lambda e, a, k: p.stub("thread", {"ident": current}))
        p.external("traceback.format_stack", lambda e, a, k: p.list(p.str("frame"), p.str("frame")))
        del e.contracts[R + "ReactorInspector.dump_frames"]
        p.set(w.o, "reactor_thread", p.int("reactor"))
        p.set(w.o, "log", Builtin("log", lambda e, a, k: e.list_append(logged, 1)))
        before = dict(e.obj(w.o).attrs)
        p.no_raise(lambda: p.m(w.o, "dump_frames"))
        p.decided(all(e.obj(w.o).attrs[k] is v for k, v in before.items()), "the inspector stays as it is", "syntactic")
        p.decided(not (w.gauges or w.tasks or w.got), "no probe, no answer and no delay", "syntactic")
        want = p.trace()
        def other(f):
            if not e.branch(zi(f[0]) == current.t):
                e.list_append(want, 1)
        e.iterate(p.listof(frames), other)
        p.eq(logged, want, "an entry for every other thread")
    p.paths(one)


@section("stop")
def stop(p):
    """Stopping is seen by the next check; it may be done at any time, any number of times."""
    def one():
        w = Inspection(p)
        p.set(w.o, "stopped", [True, False][p.e.choose(2)])
        p.no_raise(lambda: p.m(w.o, "stop"))
        p.eq(p.a(w.o, "stopped"), True, "the inspector is stopped")
    p.paths(one)


@section("start")
def start(p):
    """The thread is started once, however often start is called, and not stopped then."""
    def one():
        w = Inspection(p)
        begun = p.trace()
        p.external("threading.currentThread", lambda e, a, k: p.stub("thread", {"ident": 7}))
        p.external("Queue.Queue", lambda e, a, k: w.queue)
        p.e.ext_classes["threading.Thread"] = {"__init__": Builtin("__init__", lambda e, a, k: None), "start": Builtin("start", lambda e, a, k: e.list_append(begun, a[0]))}
        call, loop_time = p.stub("reactor.callFromThread"), p.float("loop_time")
        o = p.no_raise(lambda: p.new(R + "ReactorInspector", call, w.metrics, loop_time))
        p.eq(p.a(o, "stopped"), False, "a new inspector is not stopped")
        p.same(p.a(o, "reactor_call"), call, "its probes go to the reactor given")
        p.same(p.a(o, "metrics"), w.metrics, "its delays to the metrics given")
        p.same(p.a(o, "queue"), w.queue, "its queue is new")
        p.eq(p.a(o, "loop_time"), loop_time, "it waits as long as it was told to")
        for i in range(1 + p.e.choose(3)):
            p.no_raise(lambda: p.m(o, "start"))
        p.eq(begun, p.list(o), "the thread is started once")
        p.eq(p.a(o, "stopped"), False, "a started inspector is not stopped")
    p.paths(one)


@section("the service")
def service(p):
    """Starting the service starts the inspector; stopping it stops the inspector."""
    def one():
        calls, made = p.trace(), p.trace()
        e = p.e
        e.ext_classes["twisted.application.service.Service"] = {"startService": Builtin("startService", lambda e, a, k: None), "stopService": Builtin("stopService", lambda e, a, k: None)}
        inspector = p.stub("inspector", {"start": p.recorder(calls, "start"), "stop": p.recorder(calls, "stop")})
        e.contracts[R + "ReactorInspector"] = lambda e, c, a, k: e.list_append(made, tuple(a) + tuple(v for n, v in sorted(k.items()))) or inspector
        call, metrics, loop_time = p.stub("callFromThread"), p.stub("metrics"), p.float("loop_time")
        s = p.no_raise(lambda: p.new(R + "ReactorInspectorService", p.stub("reactor", {"callFromThread": call}), metrics, loop_time=loop_time))
        p.eq(made, p.list((call, metrics, loop_time)), "its probes are sent from the inspector's thread to the reactor's")
        p.eq(calls, p.list(), "it does not run yet")
        p.no_raise(lambda: p.m(s, "startService"))
        p.eq(calls, p.list(("start",)), "it runs with the service")
        p.no_raise(lambda: p.m(s, "stopService"))
        p.eq(calls, p.list(("start",), ("stop",)), "and is stopped with it")
    p.paths(one)
