"""Random histories of the two bounded samples, against the multiset of recorded values."""
from hlib import check, same
from txstatsd.stats.uniformsample import UniformSample
from txstatsd.stats.exponentiallydecayingsample import ExponentiallyDecayingSample

RULE = "random records (repeated values), clears, waits past the rescale threshold; capacities 1-20; non-trivial when the capacity is exceeded"


def cases(rng, tier):
    while True:
        cap = rng.choice([1, 2, 3, 5, 20])
        ops = []
        for _ in range(rng.randint(1, 30)):
            r = rng.random()
            if r < 0.82:
                ops.append(["add", rng.choice([rng.randint(0, 3), rng.randint(-5, 50), rng.randint(0, 99) / 4.0])])
            elif r < 0.86:
                ops.append(["clear"])
            elif r < 0.96:
                ops.append(["wait", rng.choice([1, 10, 300, 599, 600, 601, 3600, 0.5])])
            elif r < 0.98:
                ops.append(["rescale"])
            else:
                ops.append(["fill", rng.randint(0, 25)])
        yield {"kind": rng.choice(["uniform", "decaying"]), "cap": cap, "alpha": rng.choice([0, 0.015, 0.1, 0.99]), "ops": ops}


def nontrivial(c):
    return len([o for o in c["ops"] if o[0] == "add"]) > c["cap"]


def run(c):
    clock = [1000.0]
    cap = c["cap"]
    if c["kind"] == "uniform":
        s = UniformSample(cap)
    else:
        s = ExponentiallyDecayingSample(cap, min(c["alpha"], 0.1), lambda: clock[0])
    rec = []
    k = 0
    for op in c["ops"]:
        before = sorted(s.get_values())
        if op[0] == "clear":
            s.clear()
            rec = []
        elif op[0] == "wait":
            clock[0] += op[1]
            same(sorted(s.get_values()), before, "values after time has passed")
        elif op[0] == "rescale":
            if c["kind"] == "decaying":
                s.rescale(clock[0], s.next_scale_time)
                same(sorted(s.get_values()), before, "values after rescaling")
        else:
            vs = op[0] == "add" and [op[1]] or [k + i + 0.5 for i in range(op[1])]
            k += len(vs)
            for v in vs:
                s.update(v)
                rec.append(v)
        held = s.get_values()
        want = min(cap, len(rec))
        same(len(held), want, "number of values held after %d records (capacity %d)" % (len(rec), cap))
        same(s.size(), want, "size()")
        for v in set(held):
            check(held.count(v) <= rec.count(v), "holds %r %d times, recorded %d times: %r", v, held.count(v), rec.count(v), rec)
        if len(rec) <= cap:
            same(sorted(held), sorted(rec), "values held below the capacity")
