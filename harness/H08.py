"""Percentiles and histograms of random windows, against the definition over the values the sample retains."""
import math
from hlib import check, close, same
from txstatsd.metrics.histogrammetric import HistogramMetricReporter
from txstatsd.metrics.timermetric import TimerMetricReporter
from txstatsd.stats.uniformsample import UniformSample
from txstatsd.stats.exponentiallydecayingsample import ExponentiallyDecayingSample

RULE = "random samples of 0-40 values (few distinct, equal, negative, fractional; capacities below and above), percentiles in [0,1] incl. exact ranks; non-trivial with two values"


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, rng.randint(0, 40), rng.randint(0, 200)])
        kind = rng.randint(0, 4)
        if kind == 0:
            vals = [rng.randint(0, 5) for _ in range(n)]
        elif kind == 1:
            vals = [rng.choice([3, 3.5, 0])] * n
        elif kind == 2:
            vals = [rng.randint(-50, 500) / 8.0 for _ in range(n)]
        elif kind == 3:
            vals = [rng.random() * 10 ** rng.randint(-3, 6) for _ in range(n)]
        else:
            vals = [rng.randint(0, 100) for _ in range(n)]
        ps = [rng.choice([0, 1, 0.5, 0.25, 0.75, 0.99, 0.999, rng.random()] + [i / (n + 1.0) for i in range(min(n + 2, 6))]) for _ in range(rng.randint(1, 5))]
        pre = [rng.randint(0, 9) for _ in range(rng.choice([0, 0, 0, 4]))]
        yield {"sample": rng.choice(["uniform", "decaying", "timer"]), "cap": rng.choice([1, 2, 5, 8, 50, 300]), "before": pre, "values": vals, "ps": ps,
               "preserve": rng.random() < 0.5}


def nontrivial(c):
    return len(c["values"]) > 1


def run(c):
    if c["sample"] == "uniform":
        h = HistogramMetricReporter(UniformSample(c["cap"]))
        p = h
    elif c["sample"] == "decaying":
        h = HistogramMetricReporter(ExponentiallyDecayingSample(c["cap"], 0.015, lambda: 100))
        p = h
    else:
        p = TimerMetricReporter("t", lambda: 100)
        h = p.histogram
    if c["before"]:
        for v in c["before"]:
            h.update(v)
        h.percentiles(0.5)
        if c["sample"] == "timer":
            p.clear()
        else:
            h.clear()
    for v in c["values"]:
        h.update(v)
    kept = list(h.get_values())
    same(len(kept), min(len(c["values"]), c["sample"] == "timer" and 1028 or c["cap"]), "retained values")
    ps = sorted(c["ps"])
    got = p.percentiles(*ps)
    same(len(got), len(ps), "number of percentiles")
    s = sorted(kept)
    n = len(s)
    for q, g in zip(ps, got):
        if not n:
            check(g == 0, "percentile of nothing: %r", g)
            continue
        pos = q * (n + 1)
        if pos < 1:
            w = s[0]
        elif pos >= n:
            w = s[-1]
        else:
            k = int(math.floor(pos))
            w = s[k - 1] + (pos - k) * (s[k] - s[k - 1])
        close(g, w, "percentile %r of %d values" % (q, n), 1e-9)
        check(s[0] - 1e-9 * abs(s[0]) <= g <= s[-1] + 1e-9 * abs(s[-1]), "percentile %r = %r is outside %r..%r", q, g, s[0], s[-1])
    for a, b in zip(got, got[1:]):
        check(a <= b + 1e-9 * abs(b), "percentiles decrease: %r", got)
    close(p.percentiles(*c["ps"][:1])[0], dict(zip(ps, got))[c["ps"][0]], "a percentile asked for alone")
    same(sorted(h.get_values()), s, "retained values after reading percentiles")
    bins = h.histogram()
    check(all(b >= 0 for b in bins), "a bin is negative: %r", bins)
    check(abs(sum(bins) - n) < 1e-9, "bins %r add up to %r, not %d", bins, sum(bins), n)
    same(sorted(h.get_values()), s, "retained values after reading the histogram")
