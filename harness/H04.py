"""Random timer samples, percentiles, flushes and samples that arrive between the steps of a flush, against the exact samples per timer."""
from hlib import check, close, same
from txstatsd.server.processor import MessageProcessor

RULE = "random timer samples and flushes with random percentiles, samples arriving and other flushes made at random steps of a flush; non-trivial with two samples and a flush"
NAMES = ["a", "b.c", "d-e_f"]


def value(rng):
    return rng.choice([rng.randint(0, 9), rng.randint(-5, 400), rng.randint(0, 4000) / 8.0, 0, 1, 0.1])


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(2, 8)):
            if rng.random() < 0.6:
                n, name = rng.choice([1, 1, 2, 3, 5, 10, 20]), rng.choice(NAMES)
                ops.extend(["sample", name, value(rng)] for _ in range(n))
            else:
                during = [[rng.randint(0, 12), rng.choice(NAMES), value(rng)] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
                if rng.random() < 0.2:      # another flush, from beginning to end, while this one is under way
                    during.append([rng.randint(0, 12), "flush", rng.choice([90, 50, 75])])
                ops.append(["flush", rng.choice([90, 90, 50, 95, 99, 100, 75, 20, 0, 1, 60, rng.randint(0, 100)]), during])
        ops.append(["flush", 90, []])
        yield {"ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("sample") > 1 and "flush" in k


def valid(c):
    return all(o and len(o) == 3 and (o[0] != "flush" or all(len(d) == 3 for d in o[2])) for o in c["ops"])


def report(values, percent):
    s = sorted(values)
    n = len(s)
    x = (100 - percent) / 100.0 * n
    drop = int(x + 0.5)         # half away from zero, as Python 2 rounds
    keep = s[:max(n - drop, 1)]
    return {"count": n, "lower": s[0], "upper": s[-1], "upper_%d" % percent: keep[-1], "mean": sum(keep) / float(len(keep))}


def run(c):
    proc = MessageProcessor(time_function=lambda: 42)
    pending, taken = {}, {}

    def send(name, v):
        proc.process("%s:%r|ms" % (name, v))
        pending.setdefault(name, []).append(v)
        taken.setdefault(name, 0)

    def settle(name, got, percent):
        """What was reported for a timer are its next samples."""
        check(name in pending, "%s is reported", name)
        n = got.get("count")
        check(n and n <= len(pending[name]), "count of %s is %r: %d samples were received and not reported before", name, n, len(pending[name]))
        want = report(pending[name][:n], percent)
        same(sorted(got), sorted(want), "what is reported for %s" % name)
        for item in want:
            close(got[item], want[item], "%s of %s for %r with percentile %d" % (item, name, pending[name][:n], percent))
        pending[name] = pending[name][n:]
        taken[name] += n

    def flush(percent, during):
        got = {}
        began = dict((n, taken[n] + len(v)) for n, v in pending.items())
        points = iter(proc.flush(10000, percent))
        step = 0
        during = list(during)
        while True:
            for d in [d for d in during if d[0] <= step]:
                if d[1] == "flush":
                    if any(len(g) < 5 for g in got.values()):
                        continue        # (in the middle of what is reported for one timer: afterwards)
                    flush(d[2], [])
                else:
                    send(*d[1:])
                during.remove(d)
            step += 1
            try:
                path, v, ts = points.next()
            except StopIteration:
                break
            if path.startswith("stats.timers."):
                name, item = path[len("stats.timers."):].rsplit(".", 1)
                check(item not in got.setdefault(name, {}), "%s is reported twice in one flush", path)
                got[name][item] = v
                if len(got[name]) == 5:
                    settle(name, got[name], percent)
        for name in got:
            check(len(got[name]) == 5, "only %r reported for %s", sorted(got[name]), name)
        for name in began:
            check(taken[name] >= began[name], "%d samples of %s from before the flush are not reported", began[name] - taken[name], name)
        for d in during:
            if d[1] != "flush":
                send(*d[1:])

    for op in c["ops"]:
        if op[0] == "sample":
            send(*op[1:])
        else:
            flush(op[1], op[2])
    for name in pending:
        same(pending[name], [], "samples of %s not reported after the last flush" % name)
