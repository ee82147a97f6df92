"""The server's reports about itself: what the operating system's library, the reactor, the thread pool and the carbon client say, for all figures."""
import z3
from pyded.core import Base, HDict, HEnv, Ref, Sym, Unsupported, zi, zr, zs
from pyded.proof import PyExc, section
from pyded.seqs import Invariant, Rest
from contracts.common import *
from contracts import C28

M, S = "txstatsd.process:", "txstatsd.service:"
FUNCTIONS = ["ProcessReport.__init__/process/get_memory_and_cpu/get_cpu_counters/get_io_counters/get_net_stats", "report_system_stats", "report_threadpool_stats", "report_reactor_stats",
             "report_client_manager_stats", "createService (which reports are scheduled)", "txstatsd.process (which functions each report has)"]
TRUSTED = ["psutil: memory_info() is a pair, cpu_times() of a process a pair, io_counters() four numbers, connections() a list of tuples of six; a function that a platform does not have is missing or None",
           "psutil.cpu_times(percpu) is a named tuple of figures, or a list of them, one for each processor", "carbon.instrumentation.stats is a dictionary of numbers", "functools.update_wrapper only copies attributes"]
ASSUMPTIONS = ["two destinations' statistics whose names differ only in ':' and '_' are not both there"]
BOUNDED = ["report_client_manager_stats: up to three statistics with any names; report_system_stats: up to two processors and two modes, with any names, and 1003 processors with one mode"]


def process(p, **attrs):
    """A process with these functions, each of which counts its calls."""
    calls = {}

    def fn(name, value):
        def f(e, a, k):
            p.decided(not a and not k, "%s is asked for without arguments" % name, "syntactic")
            calls[name] = calls.get(name, 0) + 1
            return value
        return Builtin(name, f)
    s = p.stub("process", {n: None if v is None else fn(n, v) for n, v in attrs.items()})
    return s, calls


def reporter(p, proc):
    """A report about the given process, or about the current one, which is looked up once."""
    if p.e.choose(2):
        return p.no_raise(lambda: p.new(M + "ProcessReport", process=proc))
    made = []
    pid = p.int("pid")
    p.external("os.getpid", lambda e, a, k: pid)
    p.external("psutil.Process", lambda e, a, k: (made.append(1), p.eq(tuple(a), (pid,), "the current process is asked"), proc)[2])
    o = p.no_raise(lambda: p.new(M + "ProcessReport"))
    p.decided(not made, "only when it is needed", "syntactic")
    for i in range(2):
        p.decided(p.no_raise(lambda: p.a(o, "process")) is proc, "the report is about the process", "identity")
    p.decided(len(made) == 1, "which is looked up once", "syntactic")
    return o


def same_dict(p, got, want, what):
    """want: pairs of a name and a value."""
    p.eq(p.e.dict_len(got), len(want), what + ": nothing else")
    for k, v in want:
        ent = p.e.dict_find(got, k)
        p.decided(ent is not None, what + ": every figure is there", "syntactic", repr(k))
        if ent is not None:
            p.eq(ent[1], v, what + ": with its value")


def prefixed(p, default):
    """The arguments, and the prefix they stand for."""
    if p.e.choose(2):
        return (), {}, default
    x = p.str("prefix")
    return ((x,), {}, x) if p.e.choose(2) else ((), {"prefix": x}, x)


@section("ProcessReport.get_memory_and_cpu")
def memory(p):
    def one():
        v, r, c, m, t = [p.float(n) for n in ("vsize", "rss", "cpu", "memory")] + [p.int("threads")]
        attrs = {"memory_info": (v, r), "cpu_percent": c, "memory_percent": m}
        n = p.e.choose(3)
        if n:
            attrs["num_threads"] = t if n == 2 else None
        proc, calls = process(p, **attrs)
        o = reporter(p, proc)
        a, k, pre = prefixed(p, "proc")
        got = p.no_raise(lambda: p.m(o, "get_memory_and_cpu", *a, **k))
        want = [(".cpu.percent", c), (".memory.percent", m), (".memory.vsize", v), (".memory.rss", r)] + ([(".threads", t)] if n == 2 else [])
        same_dict(p, got, [(cat(p, pre, x), y) for x, y in want], "memory and cpu")
        p.decided(all(calls.get(x) == 1 for x in ("memory_info", "cpu_percent", "memory_percent")), "each is asked for once", "syntactic", repr(calls))
    p.paths(one)


@section("ProcessReport.get_cpu_counters")
def cpu(p):
    def one():
        u, s = p.float("user"), p.float("system")
        proc, calls = process(p, cpu_times=(u, s))
        o = reporter(p, proc)
        a, k, pre = prefixed(p, "proc")
        got = p.no_raise(lambda: p.m(o, "get_cpu_counters", *a, **k))
        same_dict(p, got, [(cat(p, pre, ".cpu.user"), u), (cat(p, pre, ".cpu.system"), s)], "cpu times")
    p.paths(one)


@section("ProcessReport.get_io_counters")
def io(p):
    def one():
        x = [p.int(n) for n in ("reads", "writes", "bytes_read", "bytes_written")]
        n = p.e.choose(3)
        proc, calls = process(p, **([{}, {"io_counters": None}, {"io_counters": tuple(x)}][n]))
        o = reporter(p, proc)
        a, k, pre = prefixed(p, "proc.io")
        got = p.no_raise(lambda: p.m(o, "get_io_counters", *a, **k))
        same_dict(p, got, list(zip([cat(p, pre, y) for y in (".read.count", ".write.count", ".read.bytes", ".write.bytes")], x)) if n == 2 else [], "io")
    p.paths(one)


class Tally(Invariant):
    """After k connections the dictionary has, for each name, the number of the first k that count towards it."""

    def __init__(self, p, N, counts, name):
        Invariant.__init__(self)
        self.p, self.N, self.counts, self.name = p, N, counts, name

    def discover(self, e, s, cb):
        self.touch = e.touched(s, cb)
        d = sorted({a for a, f in self.touch if isinstance(e.heap[a], HDict)}, key=str)
        if len(d) != 1:
            raise Unsupported("the loop over the connections changes %d dictionaries" % len(d))
        self.addr = d[0]

    def define(self, e, x, k):
        """What the number for name x is after k connections, from that after k - 1."""
        N = self.N
        e.assume(z3.And(N(x, 0) == 0, N(x, k) >= 0, N(x, k - 1) >= 0))
        e.assume(z3.Implies(k > 0, N(x, k) == N(x, k - 1) + z3.If(z3.And(self.counts(k - 1), zs(self.name(k - 1)) == x), 1, 0)))

    def havoc(self, e, k):
        for a, f in self.touch:
            if isinstance(e.heap[a], HEnv):
                e.heap[a].attrs.pop(f, None)
        self.content(e, zi(k))

    def content(self, e, k):
        N, nm = self.N, e.name("tally")
        K, pos, n = z3.Function(nm + "_key", z3.IntSort(), z3.StringSort()), z3.Function(nm + "_pos", z3.StringSort(), z3.IntSort()), z3.Int(nm + "_n")
        has = lambda x: N(x, k) > 0
        keys = Base(nm + "_keys", n, lambda eng, i: Sym("str", K(i)), [lambda eng, i, v: [has(K(i)), pos(K(i)) == i]], scalar="str")
        vals = Base(nm + "_vals", n, lambda eng, i: Sym("int", N(K(i), k)), [], scalar="int")
        keys.K, keys.pos, keys.has = K, pos, has
        e.assume(n >= 0)
        e.heap[self.addr] = HDict([], Rest(keys, vals, pos, has), "dict")
        x = zs(self.name(k))
        self.define(e, x, k)
        self.define(e, x, k + 1)

    def frame(self, e):
        return set(self.touch) | {(self.addr, None)}

    def prove_more(self, e, k, when):
        p, k = self.p, zi(k)
        ref = Ref(self.addr)

        def one():
            x = e.fresh("str", "any_name")
            self.define(e, x.t, k)
            ent = e.dict_find(ref, x)
            if ent is None:
                p.prove(self.N(x.t, k) == 0, "a name that is not there has no connection %s" % when)
            else:
                p.prove(z3.And(zi(ent[1]) == self.N(x.t, k), self.N(x.t, k) > 0), "a name that is there has the number of its connections %s" % when)
        e.explore(one)


@section("ProcessReport.get_net_stats")
def net(p):
    """One entry for each status that a TCP connection is in, with the number of those that are; sockets of other types are left out."""
    def one():
        e = p.e
        n = e.choose(3)
        T, ST = z3.Function("type_of", z3.IntSort(), z3.IntSort()), z3.Function("status_of", z3.IntSort(), z3.StringSort())
        e.extern["socket.SOCK_STREAM"] = 1
        b = p.base("connections", None, mk=lambda e, i: (3, 2, Sym("int", T(zi(i))), ("10.0.0.1", 1), ("10.0.0.2", 2), Sym("str", ST(zi(i)))))
        proc, calls = process(p, **([{}, {"connections": None}, {"connections": p.listof(b)}][n]))
        o = reporter(p, proc)
        a, k, pre = prefixed(p, "proc.net")
        lower = lambda i: e.call(e.getattr_(Sym("str", ST(zi(i))), "lower"), [], {})
        name = lambda i: cat(p, pre, ".status.", lower(i))
        N = z3.Function("connections_of", z3.StringSort(), z3.IntSort(), z3.IntSort())
        inv = Tally(p, N, lambda i: T(zi(i)) == 1, name)
        e.invariants[:] = [lambda e, seg, base, src: inv if base is b or base.root is b.root else None]
        got = p.no_raise(lambda: p.m(o, "get_net_stats", *a, **k))
        if n < 2:
            p.eq(e.dict_len(got), 0, "nothing where connections cannot be listed")
            return
        x = e.fresh("str", "some_name")
        e.assume(N(x.t, zi(b.n)) >= 0)
        e.assume(N(x.t, 0) == 0)
        ent = e.dict_find(got, x)
        if ent is None:
            p.prove(N(x.t, zi(b.n)) == 0, "there is an entry for every status that a TCP connection is in")
        else:
            p.prove(z3.And(N(x.t, zi(b.n)) > 0, zi(ent[1]) == N(x.t, zi(b.n))), "which is the number of those connections, and no other entry")
    p.paths(one)


@section("report_system_stats")
def system(p):
    def one():
        e = p.e
        n, per = e.choose(3), bool(e.choose(2))
        modes = [p.str("mode%d" % i) for i in range(e.choose(3))]
        if len(modes) == 2:
            p.assume(modes[0].t != modes[1].t)
        cpus = [[(m, p.float("time")) for m in modes] for i in range(n if per else 1)]
        tuples = [p.stub("times", {"_asdict": Builtin("_asdict", lambda e, a, k, c=c: p.dict(c))}) for c in cpus]

        def times(e, a, k):
            got = k.get("percpu", a[0] if a else False)
            p.decided(got is per, "all processors together, or each, as asked for", "syntactic")
            return p.list(*tuples) if per else tuples[0]
        p.external("psutil.cpu_times", times)
        a, k, pre = prefixed(p, "sys")
        if per or e.choose(2):
            k = dict(k, percpu=per)
        got = p.no_raise(lambda: p.call(M + "report_system_stats", *a, **k))
        if per:
            want = [(cat(p, pre, ".cpu.%03d." % i, m), v) for i, c in enumerate(cpus) for m, v in c]
        else:
            want = [(cat(p, pre, ".cpu.", m), v) for m, v in cpus[0]]
        same_dict(p, got, want, "cpu times")
    p.paths(one)


@section("report_system_stats, of very many processors")
def many(p):
    def one():
        e = p.e
        times = [p.float("time%d" % i) for i in range(1003)]
        p.external("psutil.cpu_times", lambda e, a, k: p.list(*[p.stub("times", {"_asdict": Builtin("_asdict", lambda e, a, k, v=v: p.dict([("user", v)]))}) for v in times]))
        got = p.no_raise(lambda: p.call(M + "report_system_stats", percpu=True))
        same_dict(p, got, [("sys.cpu.%03d.user" % i, v) for i, v in enumerate(times)], "cpu times")
    p.paths(one)


@section("report_threadpool_stats and report_reactor_stats")
def counts(p):
    def one():
        e = p.e
        pool = e.choose(2)
        lists = [p.listof(p.base(n, None, mk=lambda e, i, F=z3.Function(n, z3.IntSort(), z3.IntSort()): Sym("int", F(zi(i))))) for n in ("some", "others", "more")]
        sizes = [e.list_len(x) for x in lists]
        a, k, pre = prefixed(p, "threadpool" if pool else "reactor")
        if pool:
            q = p.int("queue")
            o = p.stub("threadpool", {"working": lists[0], "waiters": lists[1], "threads": lists[2], "q": p.stub("queue", {"qsize": Builtin("qsize", lambda e, a, k: q)})})
            want = [(".working", sizes[0]), (".queue", q), (".waiters", sizes[1]), (".threads", sizes[2])]
        else:
            o = p.stub("reactor", {"getReaders": Builtin("getReaders", lambda e, a, k: lists[0]), "getWriters": Builtin("getWriters", lambda e, a, k: lists[1])})
            want = [(".readers", sizes[0]), (".writers", sizes[1])]
        f = p.no_raise(lambda: p.call(M + ("report_threadpool_stats" if pool else "report_reactor_stats"), o, *a, **k))
        for i in range(2):
            if i and pool:
                o.attrs["working"], want[0] = lists[2], (want[0][0], sizes[2])
            elif i:
                o.attrs["getReaders"], want[0] = Builtin("getReaders", lambda e, a, k: lists[2]), (want[0][0], sizes[2])
            got = p.no_raise(lambda: p.call(f))
            same_dict(p, got, [(cat(p, pre, x), y) for x, y in want], "at the time of the report")
    p.paths(one)


@section("report_client_manager_stats")
def carbon(p):
    """The destinations' statistics, with '_' for ':', and all start again at zero."""
    def one():
        e = p.e
        names = [p.str("name%d" % i) for i in range(e.choose(4))]
        values = [p.float("value%d" % i) for i in range(len(names))]
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                if i != j:
                    p.assume(x.t != y.t)
        stats = p.dict(list(zip(names, values)))
        e.extern["carbon.instrumentation.stats"] = stats
        renamed = [e.call(e.getattr_(x, "replace"), [":", "_"], {}) for x in names]
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                if i != j:
                    p.assume(z3.And(zs(renamed[i]) != zs(renamed[j]), zs(renamed[i]) != y.t))
        got = p.no_raise(lambda: p.call(S + "report_client_manager_stats"))
        want = [(renamed[i], values[i]) for i, x in enumerate(names) if e.branch(z3.PrefixOf(z3.StringVal("destinations"), x.t))]
        same_dict(p, got, want, "the destinations' statistics")
        same_dict(p, stats, [(x, 0) for x in names], "all start again at zero")
    p.paths(one)


NAMES = ["process", "counter", "io", "net", "system", "reactor", "other"]


@section("createService: the reports scheduled")
def scheduled(p):
    """The reactor's sizes and, for each name in the option, its reports, every minute, as gauges."""
    def one():
        e = p.e
        names = [NAMES[e.choose(len(NAMES))] for i in range(e.choose(3))]
        if len(names) == 2 and names[0] == names[1]:
            return
        sep = [",", ", ", " , "][e.choose(3)] if len(names) == 2 else ","
        w = C28.Wiring(p, report=sep.join(names) if names else None)
        calls = []
        make = w.make

        def made(name, params, a, k, attrs=None):
            s = make(name, params, a, k, attrs)
            if name == "ReportingService":
                s.attrs["schedule"] = Builtin("schedule", lambda e, a, k: calls.append(dict(zip(("function", "interval", "report_function"), a), **k)))
            return s
        w.make = made
        w.opts["statsd-compliance"] = e.choose(2)
        asked = []
        e.contracts[M + "report_reactor_stats"] = lambda e, f, a, k: (asked.append(a[0]), SIZES)[1]
        reactor = p.stub("reactor")
        w.run(reactor)
        gauge = w.one("Metrics" if w.opts["statsd-compliance"] else "ExtendedMetrics").attrs["gauge"]
        for c in calls:
            w.is_(c.get("report_function"), gauge, "reports go to the gauges of the server itself")
        mine = [c for c in calls if not same_fn(c["function"], p.get(S + "report_client_manager_stats"))]
        want = [SIZES] if names else []
        for n in names:
            want += list(p.get(M + n.upper() + "_STATS")) if n not in ("reactor", "other") else []
        left = [c["function"] for c in mine]
        for f in want:
            i = [i for i, g in enumerate(left) if same_fn(f, g)]
            p.decided(len(i) == 1, "each report asked for is scheduled once", "identity", repr(names))
            left = [g for j, g in enumerate(left) if j not in i]
        p.decided(not left, "and no other", "identity", repr(left))
        for c in mine:
            p.eq(c["interval"], 60, "every minute")
        p.decided(asked == ([reactor] if names else []), "the reactor's sizes are those of the server's reactor", "identity")
        p.decided(len(w.made.get("ReactorInspectorService", [])) == (1 if "reactor" in names else 0), "the inspector runs if the reactor is among them", "identity")
    p.paths(one)


@section("txstatsd.process: the reports of each name")
def reports(p):
    """Each report asks the current process or reads its file of the kernel, counters as differences from the report before."""
    def one():
        e = p.e
        which = ["PROCESS_STATS", "COUNTER_STATS", "IO_STATS", "NET_STATS", "SYSTEM_STATS"][e.choose(5)]
        pid = p.int("pid")
        p.external("os.getpid", lambda e, a, k: pid)
        first, more = p.float("first"), p.float("more")
        turn = [0]
        figure = lambda: first if turn[0] == 0 else add(p, first, more)
        proc = p.stub("process", {n: Builtin(n, lambda e, a, k, v=v: v()) for n, v in (
            ("memory_info", lambda: (figure(), 5)), ("cpu_percent", lambda: 3), ("memory_percent", lambda: 4), ("num_threads", lambda: 6), ("cpu_times", lambda: (figure(), 7)),
            ("io_counters", lambda: (figure(), 8, 9, 10)), ("connections", lambda: p.list((3, 2, 1, 0, 0, "LISTEN"))))})
        e.extern["socket.SOCK_STREAM"] = 1
        p.external("psutil.Process", lambda e, a, k: (p.eq(tuple(a), (pid,), "the current process is asked"), proc)[1])
        p.external("psutil.cpu_times", lambda e, a, k: p.stub("times", {"_asdict": Builtin("_asdict", lambda e, a, k: p.dict([("user", figure())]))}))
        read = []
        e.contracts[M + "load_file"] = lambda e, f, a, k: (read.append(a[0]), "<%s>" % a[0])[1]
        for n in ("meminfo", "loadavg", "netdev"):
            e.contracts[M + "parse_" + n] = lambda e, f, a, k, n=n: p.dict([(n + "".join(a), figure())])
        gauge, counter = lambda n, v=None: (n, v, False), lambda n, v=None: (n, v, True)
        want = {"PROCESS_STATS": [[gauge("proc.cpu.percent", 3), gauge("proc.memory.percent", 4), gauge("proc.memory.vsize"), gauge("proc.memory.rss", 5), gauge("proc.threads", 6)]],
                "COUNTER_STATS": [[counter("proc.cpu.user"), counter("proc.cpu.system", 0)]],
                "IO_STATS": [[counter("proc.io.read.count"), counter("proc.io.write.count", 0), counter("proc.io.read.bytes", 0), counter("proc.io.write.bytes", 0)]],
                "NET_STATS": [[gauge("proc.net.status.listen", 1)]],
                "SYSTEM_STATS": [[gauge("meminfo</proc/meminfo>")], [gauge("loadavg</proc/loadavg>")], [counter("netdev</proc/net/dev>")], [counter("sys.cpu.user")]]}[which]
        fs = list(p.get(M + which))
        p.decided(len(fs) == len(want), "%s has its reports" % which, "syntactic", repr(fs))
        for f in fs:      # in any order
            turn[0] = 0
            early = p.no_raise(lambda: p.call(f))
            turn[0] = 1
            got = p.no_raise(lambda: p.call(f))
            here = [names for names in want if all(e.dict_find(got, n) is not None for n, v, c in names)]
            p.decided(len(here) == 1, "%s: each report is one of those documented" % which, "syntactic")
            for names in here[:1]:
                want.remove(names)
                same_dict(p, early, [(n, first if v is None else v) for n, v, c in names if not c], "%s, first report" % which)
                same_dict(p, got, [(n, v if v is not None else more if c else add(p, first, more)) for n, v, c in names], "%s, next report" % which)
        p.decided(not want, "%s: and all of them are there" % which, "syntactic", repr(want))
    p.paths(one)


def same_fn(f, g):
    return f is g or f == g


SIZES = Builtin("sizes", lambda e, a, k: None)
