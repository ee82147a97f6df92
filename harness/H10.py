"""Random sequences of update and tick on an Ewma against the defining recurrence."""
import math
from hlib import check, close, same
from txstatsd.stats.ewma import Ewma

RULE = "random alpha, interval and sequence of updates and ticks; non-trivial with at least two ticks and an update"


def cases(rng, tier):
    while True:
        alpha = rng.choice([0, 1, 0.5, rng.random(), rng.random(), None])
        kind = rng.choice(["one_minute_ewma", "five_minute_ewma", "fifteen_minute_ewma"])
        interval = rng.choice([1, 5, 60, 7, 0.5, rng.random() * 10 + 0.01])
        ops = []
        for _ in range(rng.randint(1, 14)):
            ops.append(rng.choice([None, None, rng.randint(0, 50), rng.random() * 100, 0, -rng.randint(0, 9)]))
        yield {"alpha": alpha, "kind": kind, "interval": interval, "ops": ops}


def nontrivial(c):
    return c["ops"].count(None) > 1 and len(c["ops"]) > c["ops"].count(None)


def run(c):
    alpha, interval = c["alpha"], c["interval"]
    if alpha is None:
        e = getattr(Ewma, c["kind"])()
        interval = 5
        alpha = 1 - math.exp(-5 / 60.0 / {"o": 1, "f": 5}.get(c["kind"][0] if c["kind"][:3] != "fif" else "x", 15))
    else:
        e = Ewma(alpha, interval)
    count, rate, seen = 0, 0.0, []
    same(e.rate, 0.0, "rate of a new average")
    for op in c["ops"]:
        if op is None:
            e.tick()
            r = count / float(interval)
            rate = alpha * r + (1 - alpha) * rate if seen else r
            seen.append(r)
            count = 0
            close(e.rate, rate, "rate after tick %d" % len(seen))
            tol = 1e-9 * max(1, max(map(abs, seen)))
            check(min(seen) - tol <= e.rate <= max(seen) + tol, "rate %r outside the per-tick rates %r", e.rate, seen)
        else:
            e.update(op)
            count += op
            close(e.rate, rate, "rate after an update")
