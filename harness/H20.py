"""Random service-level rules and samples (values, errors, sizes, refused text), directly and through the processors, against separate counts."""
from hlib import check, same
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor

RULE = "1-5 random rules (above, below, between) over patterns, then random samples and flushes of 1-3 metrics; non-trivial with two samples and a flush"
NUMBERS = [0, 1, -1, 5, 10, 2.5, 100, 0.125, -3.75]
NAMES = ["app.req", "app.req.time", "db", "a-b_c", "x.y"]
PATTERNS = ["*", "app.*", "app.re?", "db", "*.time", "pre.*", "stats.*", "*req*", "x?y", "pre.db", "nothing"]


def cases(rng, tier):
    while True:
        rules = []
        for i in range(rng.randint(0, 5)):
            kind = rng.choice(["above", "below", "between"])
            args = [rng.choice(NUMBERS), rng.choice(NUMBERS)]
            if kind == "between":
                args.sort()
            elif rng.random() < 0.4:
                args = args[:1]
            rules.append([rng.choice(PATTERNS), "label%d" % i, kind, args])
        ops = []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.2:
                ops.append(["flush"])
            else:
                v = rng.choice(NUMBERS + ["error", "nan", "inf", "-inf"]) if r < 0.95 else rng.choice(["", "x", "err", "Error"])
                ops.append(["sample", rng.choice(NAMES[:3] if rng.random() < 0.5 else NAMES), v, rng.choice([None, None, 1, 2, 0.5, 10, 0, "bad"])])
        yield {"mode": rng.choice(["direct", "compliant", "configurable"]), "prefix": rng.choice(["", "pre", "pre.", "x"]), "rules": rules, "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return k.count("sample") > 1 and "flush" in k


def valid(c):
    return c["mode"] in ("direct", "compliant", "configurable") and c["prefix"] in ("", "pre", "pre.", "x") and \
        all(len(r) == 4 and len(r[3]) in (1, 2) and (r[2] != "between" or len(r[3]) == 2) for r in c["rules"]) and \
        all(o == ["flush"] or (o[0] == "sample" and len(o) == 4 and (o[2] is not None)) for o in c["ops"])


def matches(path, pattern):
    if not pattern:
        return not path
    if pattern[0] == "*":
        return any(matches(path[i:], pattern[1:]) for i in range(len(path) + 1))
    return bool(path) and pattern[0] in ("?", path[0]) and matches(path[1:], pattern[1:])


def holds(kind, args, v, size):
    a, b = float(args[0]), float(args[1]) if len(args) > 1 else 0.0
    if kind == "above":
        return v > a + b * size
    if kind == "below":
        return v < a + b * size
    return a < v and v < b


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def run(c):
    factory = SLIMetricFactory()
    if c["rules"]:
        text = "\n".join("%s => %s IF %s %s" % (p, l, k, " ".join(repr(a) for a in args)) for p, l, k, args in c["rules"])
        factory.configure({"plugin_sli": {"rules": text}})
    else:
        factory.configure({})
    prefix = c["prefix"]
    if c["mode"] == "direct":
        objs = {}
    elif c["mode"] == "compliant":
        proc = MessageProcessor(time_function=lambda: 42, plugins=[factory])
        prefix = "stats." + factory.name
    else:
        prefix = prefix.rstrip(".")
        proc = ConfigurableMessageProcessor(time_function=lambda: 42, message_prefix=prefix, plugins=[factory])
    dot = prefix and prefix.rstrip(".") + "." or ""
    state = {}
    for op in c["ops"]:
        if op[0] == "sample":
            _, name, v, size = op
            fields = [str(v), "sli"] + ([] if size is None else [str(size)])
            refused = False
            if c["mode"] == "direct":
                if name not in objs:
                    objs[name] = factory.build_metric(c["prefix"], name)
                try:
                    objs[name].process(fields)
                except ValueError:
                    refused = True
            else:
                proc.process(name + ":" + "|".join(fields))
            good = (v == "error" or number(v) is not None) and (size is None or number(size) is not None)
            if c["mode"] == "direct":
                same(refused, not good, "refusal of %r" % (fields,))
            if c["mode"] == "direct" or good:
                m = state.setdefault(name, {"count": 0, "error": 0, "by": dict((l, 0) for p, l, k, a in c["rules"] if matches(dot + name, p))})
            if good:
                m["count"] += 1
                if v == "error":
                    m["error"] += 1
                else:
                    for p, l, k, a in c["rules"]:
                        if l in m["by"] and holds(k, a, float(v), 1 if size is None else float(size)):
                            m["by"][l] += 1
        else:
            if c["mode"] == "direct":
                got = [x for n in objs for x in objs[n].flush(10, 42)]
            else:
                got = [x for x in proc.flush() if not x[0].startswith(proc.internal_metrics_prefix)]
            want = []
            for name, m in state.items():
                want += [(dot + name + ".count", m["count"], 42), (dot + name + ".error", m["error"], 42)]
                want += [(dot + name + ".count_" + l, n, 42) for l, n in m["by"].items()]
                m["count"] = m["error"] = 0
                m["by"] = dict((l, 0) for l in m["by"])
            same(sorted(got), sorted(want), "what is reported")
