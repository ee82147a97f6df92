"""Random figures of processes, processors, reactors, thread pools and carbon clients against what is reported."""
import collections
import functools
import socket

from hlib import check, same
from txstatsd import process, service
from carbon import instrumentation

RULE = "random figures, functions a platform lacks, connections of random types and statuses, random carbon statistics over several reports; non-trivial: several connections or statistics, or a missing function"
STATUSES = ["ESTABLISHED", "LISTEN", "CLOSE_WAIT", "SYN_SENT", "NONE"]
STATS = ["destinations.127.0.0.1:2004:None.sent", "destinations.127.0.0.1:2004:a.sent", "destinations.10.0.0.1:2104:b.fullQueueDrops", "destinations.h:1.relayMaxQueueLength",
         "metricsReceived", "cpuUsage", "destination", "blacklistMatches", "my.destinations:1", "destinations"]


def number(rng):
    return rng.choice([0, 1, rng.randint(0, 10 ** 6), rng.randint(0, 1000) / 8.0])


def cases(rng, tier):
    while True:
        kind = rng.choice(["memory", "cpu", "io", "net", "net", "system", "reactor", "pool", "carbon", "carbon", "module"])
        c = {"kind": kind, "prefix": rng.choice(["", "", "x.y", "host"]), "missing": rng.choice(["no", "no", "none", "gone"]), "v": [number(rng) for _ in range(5)], "rows": []}
        if kind == "net":
            c["rows"] = [[rng.choice([socket.SOCK_STREAM, socket.SOCK_STREAM, socket.SOCK_DGRAM]), rng.choice(STATUSES)] for _ in range(rng.randint(0, 7))]
        elif kind == "system":
            c["rows"] = [[["user", number(rng)], ["system", number(rng)], ["idle", number(rng)]][:rng.randint(1, 3)] for _ in range(rng.choice([1, 2, 3, 3, 3, 3, 3, 130, 1002]))]
        elif kind in ("reactor", "pool"):
            c["rows"] = [rng.randint(0, 5) for _ in range(4)]
        elif kind == "carbon":
            c["rows"] = [[[s, number(rng)] for s in rng.sample(STATS, rng.randint(0, len(STATS)))] for _ in range(rng.randint(1, 3))]
        yield c


def nontrivial(c):
    return len(c["rows"]) > 1 or c["missing"] != "no"


class Process(object):
    pass


TIMES = {}


def times(modes):
    if modes not in TIMES:
        TIMES[modes] = collections.namedtuple("times", modes)
    return TIMES[modes]


class Pool(object):
    pass


def proc(c):
    x, v = Process(), c["v"]
    x.memory_info = lambda: (v[0], v[1])
    x.cpu_percent = lambda: v[2]
    x.memory_percent = lambda: v[3]
    x.num_threads = lambda: v[4]
    x.cpu_times = lambda: (v[0], v[1])
    x.io_counters = lambda: (v[0], v[1], v[2], v[3])
    x.connections = lambda: [(3, 2, r[0], ("10.0.0.1", 1), () if r[1] in ("LISTEN", "NONE") else ("10.0.0.2", 2), r[1]) for r in c["rows"]]
    for name in ("num_threads", "io_counters", "connections"):
        if c["missing"] == "none":
            setattr(x, name, None)
        elif c["missing"] == "gone":
            delattr(x, name)
    return x


def run(c):
    kind, v, pre = c["kind"], c["v"], c["prefix"]
    args = pre and [pre] or []
    there = c["missing"] == "no"
    if kind == "memory":
        p = pre or "proc"
        want = {p + ".cpu.percent": v[2], p + ".memory.percent": v[3], p + ".memory.vsize": v[0], p + ".memory.rss": v[1]}
        if there:
            want[p + ".threads"] = v[4]
        same(process.ProcessReport(proc(c)).get_memory_and_cpu(*args), want, "memory and cpu")
    elif kind == "cpu":
        p = pre or "proc"
        same(process.ProcessReport(proc(c)).get_cpu_counters(*args), {p + ".cpu.user": v[0], p + ".cpu.system": v[1]}, "cpu times")
    elif kind == "io":
        p = pre or "proc.io"
        want = dict(zip([p + x for x in (".read.count", ".write.count", ".read.bytes", ".write.bytes")], v))
        same(process.ProcessReport(proc(c)).get_io_counters(*args), there and want or {}, "io counters")
    elif kind == "net":
        p, want = pre or "proc.net", {}
        for t, s in c["rows"]:
            if t == socket.SOCK_STREAM and there:
                k = p + ".status." + s.lower()
                want[k] = want.get(k, 0) + 1
        same(process.ProcessReport(proc(c)).get_net_stats(*args), want, "connections")
    elif kind == "system":
        p, rows = pre or "sys", c["rows"]
        tuples = [times(tuple(m for m, x in r))(*[x for m, x in r]) for r in rows]
        real = process.psutil.cpu_times
        process.psutil.cpu_times = lambda percpu=False: percpu and tuples or tuples[0]
        try:
            same(process.report_system_stats(*args), dict((p + ".cpu." + m, x) for m, x in rows[0]), "cpu times")
            same(process.report_system_stats(*args, **{"percpu": True}), dict(("%s.cpu.%03d.%s" % (p, i, m), x) for i, r in enumerate(rows) for m, x in r), "cpu times of each processor")
        finally:
            process.psutil.cpu_times = real
    elif kind == "reactor":
        n = list(c["rows"])
        r = Pool()
        r.getReaders, r.getWriters = lambda: range(n[0]), lambda: range(n[1])
        f = process.report_reactor_stats(r, *args)
        p = pre or "reactor"
        same(f(), {p + ".readers": n[0], p + ".writers": n[1]}, "the reactor's sizes")
        n.reverse()
        same(f(), {p + ".readers": n[0], p + ".writers": n[1]}, "the reactor's sizes later")
    elif kind == "pool":
        n, p = c["rows"], pre or "threadpool"
        x = Pool()
        x.working, x.waiters, x.threads, x.q = range(n[0]), range(n[1]), range(n[2]), Pool()
        x.q.qsize = lambda: n[3]
        f = process.report_threadpool_stats(x, *args)
        same(f(), {p + ".working": n[0], p + ".waiters": n[1], p + ".threads": n[2], p + ".queue": n[3]}, "the thread pool's sizes")
        x.threads = range(9)
        same(f()[p + ".threads"], 9, "the thread pool's sizes later")
    elif kind == "carbon":
        stats = instrumentation.stats
        stats.clear()
        known = set()
        for row in c["rows"]:
            want = dict((k, 0) for k in known)
            for k, x in row:
                stats[k] = stats.get(k, 0) + x
                want[k] = x
                known.add(k)
            got = service.report_client_manager_stats()
            same(got, dict((k.replace(":", "_"), x) for k, x in want.items() if k.startswith("destinations")), "the destinations' statistics")
            same(stats, dict((k, 0) for k in known), "after the report all start again")
        stats.clear()
    else:
        x = proc(c)
        report = process.process_report
        real, report._process = report._process, x
        try:
            if kind == "module":
                p = "proc"
                same(process.PROCESS_STATS[0]()[p + ".cpu.percent"], v[2], "the report named process")
                process.COUNTER_STATS[0]()
                same(process.COUNTER_STATS[0](), {p + ".cpu.user": 0, p + ".cpu.system": 0}, "the report named counter, with nothing new")
                process.IO_STATS[0]()
                same(process.IO_STATS[0](), there and dict((p + ".io" + k, 0) for k in (".read.count", ".write.count", ".read.bytes", ".write.bytes")) or {}, "the report named io, with nothing new")
        finally:
            report._process = real
