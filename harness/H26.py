"""The same random lines and flushes through a logging and a configurable processor: same data points, and a log of every line and point."""
from hlib import check, same
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor

RULE = "random lines (good, bad values, malformed) and flushes through both processors; non-trivial with two lines and a flush"
LINES = ["%s%d:%s|%s%s" % (n, i, v, t, x) for n in ("a", "b c", "d/e") for i in (1, 2) for v in ("1", "-3", "2.5", "x", "nan", "1:2", "")
         for t, x in (("c", ""), ("c", "|@0.5"), ("c", "|@x"), ("ms", ""), ("g", ""), ("m", ""), ("sli", ""), ("zz", ""), ("sli", "|2"))]
BAD = ["", "x", "a:1", "a|c", "a:1|c|2|3", ":", "a:|", "%s:1|c", "a%d:2|g", "  a1:5|c \r\n", "b:1|m\n"]


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(2, 12)):
            r = rng.random()
            ops.append(["flush", rng.choice([10000, 1000]), rng.choice([90, 90, 75])] if r < 0.2 else ["line", rng.choice(BAD if r < 0.35 else LINES)])
        ops.append(["flush", 10000, 90])
        yield {"prefix": rng.choice(["", "pre"]), "internal": rng.choice(["", "int."]), "ops": ops}


def nontrivial(c):
    return len([o for o in c["ops"] if o[0] == "line"]) > 1


def valid(c):
    return c["prefix"] in ("", "pre") and c["internal"] in ("", "int.") and all(o and len(o) == {"line": 2, "flush": 3}[o[0]] for o in c["ops"])


class Logger(object):
    def __init__(self):
        self.out = []

    def info(self, text):
        self.out.append(text)


def wellformed(line):
    if ":" not in line:
        return False
    rest = line.strip().split(":", 1)[1] if ":" in line.strip() else ""
    return rest.count("|") in (1, 2)


def run(c):
    now = [100]
    logger = Logger()
    kw = dict(time_function=lambda: now[0], message_prefix=c["prefix"], internal_metrics_prefix=c["internal"])
    procs = []
    for make in (ConfigurableMessageProcessor, lambda **k: LoggingMessageProcessor(logger, **k)):
        sli = SLIMetricFactory()
        sli.configure({})
        procs.append(make(plugins=[sli], **kw))
    plain, dump = procs
    for op in c["ops"]:
        now[0] += 7
        del logger.out[:]
        if op[0] == "line":
            plain.process(op[1])
            dump.process(op[1])
            if wellformed(op[1]):
                same(logger.out, ["In: " + op[1]], "the log of a line")
            else:
                check(len(logger.out) <= 1, "the log of a malformed line: %r", logger.out)
        else:
            want = list(plain.flush(interval=op[1], percent=op[2]))
            got = list(dump.flush(interval=op[1], percent=op[2]))
            same(sorted(got), sorted(want), "flushed in dump mode")
            same(logger.out, ["Out: %s %s %s" % x for x in got], "the log of a flush")
        same(sorted(dump.get_metric_names()), sorted(plain.get_metric_names()), "metrics known")
