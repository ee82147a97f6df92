"""Random histories of distinct counters against fresh counters (same hash functions) given only the items that matter."""
import random
from hlib import check, same
from txstatsd.metrics.distinctmetric import DistinctMetricReporter, SlidingDistinctCounter

RULE = "random items (few or many, repeated) at non-decreasing times around the window edges; non-trivial with a repeated item"


def cases(rng, tier):
    while True:
        ops = []
        pool = rng.choice([2, 5, 40, 400])
        if rng.random() < .25:          # the same items again shortly before the window has passed over their first time
            w, few = rng.choice([60, 3600, 86400]), rng.choice([.25, .5, 1, 2, 10, 59])
            first = ["range", rng.randint(0, 500), rng.randint(10, 40)]
            ops = [first, ["wait", few], [first[0], first[1], rng.choice([first[2], 5])], ["wait", w - rng.choice([few * .5, few, few * .99])]]
        for _ in range(rng.randint(len(ops) and 0 or 1, len(ops) and 3 or 25)):
            r = rng.random()
            if r < 0.6:
                ops.append(["add", rng.randint(0, pool)])
            elif r < 0.7:
                ops.append(["range", rng.randint(0, 500), rng.randint(1, 25)])
            else:
                ops.append(["wait", rng.choice([0, 1, 30, 59, 60, 61, 3540, 3600, 3601, 86340, 86400, 40000, 0.5])])
        yield {"seed": rng.randint(0, 10 ** 6), "start": rng.choice([86400, 86400.25, 200000, 1300000000]), "ops": ops}


def nontrivial(c):
    a = [o[1] for o in c["ops"] if o[0] == "add"]
    return len(set(a)) < len(a)


WINDOWS = [("count_1min", 60), ("count_1hour", 3600), ("count_1day", 86400), ("count", None)]


def fresh(seed, clock, tables):
    state = random.getstate()
    random.seed(seed)
    r = DistinctMetricReporter("d", wall_time_func=lambda: clock[0], prefix="p")
    random.setstate(state)
    return r


def estimates(r, now):
    out = {}
    for name, t, ts in r.flush(10, 7):
        check(name.startswith("p.d.") and ts == 7, "reported point %r", (name, t, ts))
        out[name[4:]] = t
    check(sorted(out) == sorted(k for k, w in WINDOWS), "reported estimates: %r", sorted(out))
    same([out["count_1min"], out["count_1hour"], out["count_1day"], out["count"]],
         [r.count_1min(now), r.count_1hour(now), r.count_1day(now), r.count()], "flushed estimates")
    return out


def run(c):
    clock = [c["start"]]
    r = fresh(c["seed"], clock, 0)
    last = {}
    prev = estimates(r, clock[0])
    for op in c["ops"]:
        if op[0] == "wait":
            clock[0] += op[1]
            prev = estimates(r, clock[0])
            continue
        items = ["item%d" % (op[1] + i) for i in range(op[0] == "range" and op[2] or 1)]
        for it in items:
            r.process([it, "d"])
            e = estimates(r, clock[0])
            for k, w in WINDOWS:
                check(e[k] >= prev[k], "recording %r lowered %s from %r to %r", it, k, prev[k], e[k])
            if it in last:
                same(e["count"], prev["count"], "all-time estimate after repeating %r" % it)
            check(e["count_1min"] <= e["count_1hour"] <= e["count_1day"] <= e["count"], "estimates out of order: %r", e)
            last[it] = clock[0]
            prev = e
    now = clock[0]
    rng = random.Random(c["seed"])
    for k, w in WINDOWS:
        c2 = [now]
        f = fresh(c["seed"], c2, 0)
        inside = [it for it in sorted(last) if w is None or last[it] > now - w]
        rng.shuffle(inside)
        for it in inside:
            f.update(it)
        same(prev[k], estimates(f, now)[k], "%s after the whole history, against only the %d items last recorded inside the window" % (k, len(inside)))
