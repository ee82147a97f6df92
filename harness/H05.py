"""Random gauge samples (and samples of other kinds), flushes, samples arriving during a flush: the last value reported is the last received."""
from hlib import check, same
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor

RULE = "random gauge samples and flushes in both modes, with samples at random steps of a flush; non-trivial with two samples and a flush"
NAMES = ["a", "b.c", "d-e_f", "g.value", "h"]


def cases(rng, tier):
    while True:
        def v():
            return rng.choice([rng.randint(-5, 9), rng.randint(0, 800) / 8.0, 0, -1.5, 1000000])
        ops = []
        if rng.random() < 0.05:     # (many, as a server gets them)
            ops += [["sample", rng.choice(NAMES), v()] for _ in range(rng.choice([60, 120, 1100, 300]))]
        for _ in range(rng.randint(2, 12)):
            r = rng.random()
            if r < 0.6:
                ops.append(["sample", rng.choice(NAMES), v()])
            elif r < 0.7:
                ops.append(["other", rng.choice(["x:1|c", "y:2|ms", "z:3|m", "a:x|g", "a:nan|g", "b.c:1:2|g", "h:|g"])])
            else:
                ops.append(["flush", [[rng.randint(0, 8), rng.choice(NAMES), v()] for _ in range(rng.choice([0, 0, 1, 3]))]])
        ops.append(["flush", []])
        yield {"mode": rng.choice(["compliant", "configurable"]), "prefix": rng.choice(["", "pre", "a.b"]), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("sample") > 1 and "flush" in k


def valid(c):
    return c["mode"] in ("compliant", "configurable") and c["prefix"] in ("", "pre", "a.b") and all(
        o and {"sample": len(o) == 3, "other": len(o) == 2 and len(o[1]) > 3, "flush": len(o) == 2 and all(len(d) == 3 for d in o[1])}.get(o[0]) for o in c["ops"])


def run(c):
    clock = [42]
    if c["mode"] == "compliant":
        proc = MessageProcessor(time_function=lambda: clock[0])
        prefix = "stats.gauge."
    else:
        proc = ConfigurableMessageProcessor(time_function=lambda: clock[0], message_prefix=c["prefix"])
        prefix = c["prefix"] and c["prefix"] + "." or ""
    last = {}

    def send(name, v):
        proc.process("%s:%r|g" % (name, v))
        last[name] = v

    for op in c["ops"]:
        clock[0] += 10
        if op[0] == "sample":
            send(*op[1:])
        elif op[0] == "other":
            proc.process(op[1])
        else:
            before = dict(last)
            final, times = {}, {}
            points = iter(proc.flush())
            step = 0
            while True:
                for d in op[1]:
                    if d[0] == step:
                        send(*d[1:])
                step += 1
                try:
                    path, v, ts = points.next()
                except StopIteration:
                    break
                if path.startswith(prefix) and path.endswith(".value"):
                    name = path[len(prefix):-len(".value")]
                    final[name] = v
                    times[name] = times.get(name, 0) + 1
                    same(ts, clock[0], "timestamp")
            for d in op[1]:
                if d[0] >= step:
                    send(*d[1:])
            check(set(before) <= set(final), "gauges not reported: %r", sorted(set(before) - set(final)))
            check(set(final) <= set(last), "reported though never received: %r", sorted(set(final) - set(last)))
            if not op[1]:
                same(final, last, "last value reported for each gauge")
            else:
                for name in final:
                    ok = [before.get(name)] + [d[2] for d in op[1] if d[1] == name]
                    check(final[name] in ok, "%s reported as %r, which is none of %r", name, final[name], ok)
            if c["mode"] == "configurable":
                same([n for n in times if times[n] != 1], [], "gauges reported more than once in a flush")
