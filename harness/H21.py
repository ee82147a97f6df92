"""Random kernel tables and counter readings, against tables written from the numbers themselves."""
import os
import tempfile

from hlib import Failure, check, same
from txstatsd import process

RULE = ("random /proc/meminfo, /proc/loadavg and /proc/net/dev texts (columns, lines, spacing and units varied) and random sequences of "
        "counter readings with keys that come and go; non-trivial: recognised and other lines, or three readings")
KNOWN_KEYS = ["MemTotal", "MemFree", "Buffers", "Cached", "SwapCached", "SwapTotal", "SwapFree"]
OTHER = ["Active", "Active(anon)", "Dirty", "Slab", "HugePages_Rsvd", "Mem", "MemTotalX", "XMemTotal", "SwapCache", "Memfree",
         "Hugepagesize", "MemAvailable",
         "Inactive", "Inactive(anon)", "Inactive(file)", "Active(file)", "Unevictable", "Mlocked", "Writeback", "AnonPages", "Mapped", "Shmem",
         "SReclaimable", "SUnreclaim", "KernelStack", "PageTables", "NFS_Unstable", "Bounce", "WritebackTmp", "CommitLimit", "Committed_AS",
         "VmallocTotal", "VmallocUsed", "VmallocChunk", "HardwareCorrupted", "HugePages_Total", "HugePages_Free", "DirectMap4k", "DirectMap2M"]
RECV = ["bytes", "packets", "errs", "drop", "fifo", "frame", "compressed", "multicast"]
SEND = ["bytes", "packets", "errs", "drop", "fifo", "colls", "carrier", "compressed"]
DEVICES = ["lo", "eth0", "tun0", "eth0.12", "br-ab12", "wlan0", "a", "veth_1", "enp3s0", "dev", "face", "veth0@if5", "tun-%x"]


def number(rng):
    return rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 13), 2 ** 31, 2 ** 63 + 1])


def cases(rng, tier):
    while True:
        kind = rng.choice(["mem", "mem", "load", "net", "net", "count", "count", "file"])
        if kind == "mem":
            labels = rng.sample(KNOWN_KEYS, rng.randint(0, 7)) + rng.sample(OTHER, rng.randint(0, 5))
            rng.shuffle(labels)
            rows = [[l, number(rng), rng.choice(["kB", "kB", "kB", "mB", ""]), rng.randint(1, 12)] for l in labels]
            yield {"kind": kind, "rows": rows, "end": rng.choice(["", "\n", "\n\n"]), "blank": rng.randint(0, 3),
                   "prefix": rng.choice(["", "", "x.y"])}
        elif kind == "load":
            yield {"kind": kind, "v": [rng.randint(0, 99999) for _ in range(3)], "rest": rng.choice([" 2/2015 19420\n", " 1/1 1", "", "\n"]),
                   "prefix": rng.choice(["", "", "x.y"])}
        elif kind in ("net", "file"):
            r, s = list(RECV), list(SEND)
            if rng.random() < .6:
                rng.shuffle(r)
                rng.shuffle(s)
            if rng.random() < .3:
                r, s = ([x for x in r if x in ("bytes", "packets") or rng.random() < .6],
                        [x for x in s if x in ("bytes", "packets") or rng.random() < .6])
            rows = [[d, [number(rng) for _ in r + s], rng.choice([" ", "", "   "]), rng.choice(["", " ", "  "])]
                    for d in rng.sample(DEVICES, rng.randint(0, 5))]
            yield {"kind": kind, "r": r, "s": s, "rows": rows, "end": rng.choice(["", "\n"]), "prefix": rng.choice(["", "", "x.y"])}
        else:
            keys = ["k%d" % i for i in range(rng.randint(1, 4))]
            vals = dict((k, number(rng)) for k in keys)
            seq = []
            for _ in range(rng.randint(1, 7)):
                d = {}
                for k in keys:
                    if rng.random() < .75:
                        vals[k] = rng.choice([vals[k], vals[k] + number(rng), 0, number(rng) * .5])
                        d[k] = vals[k]
                seq.append(d)
            yield {"kind": kind, "seq": seq, "args": rng.choice([[], [1], [1, "x"]]), "kw": rng.choice([{}, {"prefix": "p"}])}


def nontrivial(c):
    if c["kind"] == "mem":
        known = [r for r in c["rows"] if r[0] in KNOWN_KEYS]
        return 0 < len(known) < len(c["rows"])
    return c["kind"] != "count" or len(c["seq"]) > 2


def valid(c):
    if c["kind"] == "mem":
        return all(len(r) == 4 for r in c["rows"])
    if c["kind"] == "load":
        return len(c["v"]) == 3
    if c["kind"] in ("net", "file"):
        return (set(["bytes", "packets"]) <= set(c["r"]) & set(c["s"]) and
                all(len(r) == 4 and len(r[1]) == len(c["r"] + c["s"]) for r in c["rows"]))
    return True


def with_prefix(c, parse, text, default):
    if c["prefix"]:
        return parse(text, c["prefix"]), c["prefix"]
    return parse(text), default


def net(c):
    lines = ["Inter-|   Receive                    |  Transmit", " face |%s|%s" % ("    ".join(c["r"]), " ".join(c["s"]))]
    for dev, nums, space, indent in c["rows"]:
        lines.append("%s%s:%s%s" % (indent, dev, space, "   ".join("%d" % n for n in nums)))
    return "\n".join(lines) + c["end"]


def net_want(c, prefix):
    want = {}
    for dev, nums, _, _ in c["rows"]:
        for dirn, cols, off in (("received", c["r"], 0), ("sent", c["s"], len(c["r"]))):
            for what in ("bytes", "packets"):
                want["%s.%s.%s.%s" % (prefix, dev, what, dirn)] = nums[off + cols.index(what)]
    return want


def run(c):
    if c["kind"] == "mem":
        lines = ["%s:%s%d%s" % (l, " " * w, n, unit and " " + unit) for l, n, unit, w in c["rows"]]
        if c["blank"] == 3:
            lines.insert(len(lines) // 2, "")
        got, prefix = with_prefix(c, process.parse_meminfo, "\n".join(lines) + c["end"], "sys.mem")
        want = {}
        for l, n, unit, w in c["rows"]:
            if l in KNOWN_KEYS:
                want[prefix + "." + l] = n * {"kB": 1024, "mB": 1024 * 1024, "": 1}[unit]
        same(got, want, "the memory table")
    elif c["kind"] == "load":
        got, prefix = with_prefix(c, process.parse_loadavg, " ".join("%d.%02d" % divmod(v, 100) for v in c["v"]) + c["rest"], "sys.loadavg")
        same(got, dict((prefix + "." + k, float("%d.%02d" % divmod(v, 100))) for k, v in
                       zip(["oneminute", "fiveminutes", "fifthteenminutes"], c["v"])), "the load table")
    elif c["kind"] == "net":
        got, prefix = with_prefix(c, process.parse_netdev, net(c), "sys.net")
        same(got, net_want(c, prefix), "the network table")
    elif c["kind"] == "file":
        fd, name = tempfile.mkstemp()
        try:
            os.close(fd)
            report = process.report_counters(process.report_file_stats(name, process.parse_netdev))
            last = {}
            for i in range(3):
                rows = [[d, [n * (i + 1) + i for n in nums], a, b] for d, nums, a, b in c["rows"]]
                f = open(name, "w")
                f.write(net(dict(c, rows=rows)))
                f.close()
                new = net_want(dict(c, rows=rows), "sys.net")
                want = dict((k, new[k] - last[k]) for k in new if k in last)
                same(report(), want, "reading %d of a file" % i)
                last = new
        finally:
            os.unlink(name)
    else:
        calls = []
        seq = [dict(d) for d in c["seq"]]

        def read(*a, **k):
            calls.append((a, k))
            return dict(c["seq"][len(calls) - 1])
        report = process.report_counters(read, *c["args"], **c["kw"])
        other = process.report_counters(lambda: {"k0": 5})
        same(other(), {}, "the first report of another counter")
        for i, d in enumerate(seq):
            got = report()
            last = seq[i - 1] if i else {}
            same(got, dict((k, v - last[k]) for k, v in d.items() if k in last), "report %d" % i)
            same(len(calls), i + 1, "readings taken")
            same(calls[-1], (tuple(c["args"]), c["kw"]), "arguments of the function")
        same(other(), {"k0": 0}, "the second report of another counter")
