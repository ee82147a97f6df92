"""Random counters, flushes and samples that arrive between the steps of a flush, against exact sums per counter."""
from fractions import Fraction
from hlib import check, close, same
from txstatsd.server.processor import MessageProcessor

RULE = "random counter samples with rates, flushes with random intervals, samples arriving and other flushes made at random steps of a flush; non-trivial with two samples and a flush"
NAMES = ["a", "b.c", "d-e_f", "g"]
VALUES = ["1", "2", "-3", "0", "0.5", "10", "1e3", "123456", "0.25", "-0.75"]
RATES = [None, None, "1", "0.5", "0.1", "0.25", "2", "1e-3", "0.75"]
BAD = [["x", None], ["1", "0"], ["nan", None], ["", None], ["1", "x"]]


def sample(rng):
    if rng.random() < 0.05:
        return ["sample", rng.choice(NAMES)] + rng.choice(BAD)
    return ["sample", rng.choice(NAMES), rng.choice(VALUES), rng.choice(RATES)]


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(2, 12)):
            if rng.random() < 0.7:
                ops.append(sample(rng))
            else:
                during = [[rng.randint(0, 12)] + sample(rng)[1:] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
                if rng.random() < 0.2:      # another flush, from beginning to end, while this one is under way
                    during.append([rng.randint(0, 8), "flush", rng.choice([1000, 500]), None])
                ops.append(["flush", rng.choice([1000, 10000, 60000, 7000, 10000, 500, 1500, 250]), during])
        ops.append(["flush", 10000, []])
        yield {"ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("sample") > 1 and "flush" in k


def valid(c):
    return all(o and (o[0] == "sample" and len(o) == 4 and o[2] is not None or
                      o[0] == "flush" and len(o) == 3 and all(len(d) == 4 for d in o[2])) for o in c["ops"])


def worth(value, rate):
    """value / rate, or None for a line that is no sample."""
    try:
        v = Fraction(value)
        r = Fraction(1 if rate is None else rate)
    except (ValueError, TypeError):
        return None
    return v / r if r > 0 else None


def run(c):
    proc = MessageProcessor(time_function=lambda: 42)
    pending = {}
    accepted, reported = {}, {}

    def send(name, value, rate):
        proc.process("%s:%s|c%s" % (name, value, "" if rate is None else "|@" + rate))
        w = worth(value, rate)
        if w is not None:
            pending[name] = pending.get(name, 0) + w
            accepted[name] = accepted.get(name, 0) + w

    def act(d):
        if d[1] == "flush":
            flush(d[2], [], True)
        else:
            send(*d[1:])

    def flush(interval, during, within=False):
        existed = set(pending)
        counts, rates = {}, {}
        points = iter(proc.flush(interval))
        step = 0
        while True:
            for d in during:
                if d[0] == step:
                    act(d)
            step += 1
            try:
                path, value, ts = points.next()
            except StopIteration:
                break
            for prefix, table in (("stats_counts.", counts), ("stats.", rates)):
                if path.startswith(prefix) and path[len(prefix):] in NAMES:
                    name = path[len(prefix):]
                    check(name not in table, "%s is reported twice in one flush", path)
                    table[name] = value
                    if table is counts:
                        reported[name] = reported.get(name, 0) + value
        for d in during:
            if d[0] >= step:
                act(d)
        check(existed <= set(counts), "counters not reported: %r", sorted(existed - set(counts)))
        same(set(counts), set(rates), "counters reported as counts and as rates")
        for name in counts:
            close(rates[name], counts[name] / (interval / 1000.0), "rate of %s for %r over %r ms" % (name, counts[name], interval))
        for name in pending:
            if name in counts:
                pending[name] = accepted[name] - Fraction(reported[name])
        if not during and not within:
            for name in counts:
                close(float(accepted[name]), float(reported[name]), "total reported for %s after a flush" % name)
    for op in c["ops"]:
        if op[0] == "sample":
            send(*op[1:])
        else:
            flush(op[1], op[2])
    for name in accepted:
        close(float(reported.get(name, 0)), float(accepted[name]), "total reported for %s, nothing pending" % name, 1e-8)
