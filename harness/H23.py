"""Random histories on a simulated clock, then the pages, against what was sent and how long it took."""
import json
from hlib import check, close, same
from twisted.plugins.sli_plugin import SLIMetricFactory
from txstatsd.server import httpinfo
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.processor import MessageProcessor
from txstatsd.service import StatsDOptions

RULE = "random samples, slow plugins and flushes on a simulated clock in both modes, then the status page, the list of metrics and the pages of metrics; non-trivial with two samples"
NAMES = ["a", "b.c", "d-e", "f"]


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(0, 12)):
            r = rng.random()
            if r < 0.15:
                ops.append(["flush", rng.choice([0, 0, 0.1, 1.5, 3]) * 1.0])
            elif r < 0.25:
                ops.append(["partial", 0])
            else:
                ops.append([rng.choice(["c", "ms", "ms", "g", "m", "slow", "slow", "lag"]), rng.choice(NAMES), rng.choice([0, 1, 2.5, -3, 100]), rng.choice([0, 0, 0.25, 2, 4, 0.7005, 0.875, 0.875, 1.75, 3.5])])
        yield {"shared": rng.random() < 0.5, "mode": rng.randint(0, 1), "interval": rng.choice([1000, 1001, 1250, 5000, 10000, 60000, 500]), "ops": ops, "port": rng.choice([8080, None])}


def nontrivial(c):
    return len([o for o in c["ops"] if len(o) == 4]) > 1


def valid(c):
    return all(len(o) in (2, 4) for o in c["ops"])


class Slow(object):
    """A plugin whose metrics take time to receive and flush a sample."""
    name = metric_type = "slow"

    def __init__(self, clock, kind="slow"):
        self.clock = clock
        self.name = self.metric_type = kind
        self.flushing = self.processing = 0

    def build_metric(self, prefix, name, wall_time_func=None):
        outer = self

        class Metric(object):
            def process(self, fields):
                outer.clock[0] += outer.processing

            def flush(self, interval, timestamp):
                outer.clock[0] += outer.flushing
                return [(name, 1, timestamp)]
        return Metric()


class Request(object):
    method = "GET"
    uri = "/"

    def __init__(self, path):
        self.code = 200
        self.prepath, self.postpath = [], path.split("/")

    def setResponseCode(self, code, message=None):
        self.code = code

    def setHeader(self, *a):
        pass


class Service(object):
    pass


def get(root, path):
    r = Request(path)
    page = root
    while r.postpath and not page.isLeaf:
        part = r.postpath.pop(0)
        r.prepath.append(part)
        page = page.getChildWithDefault(part, r)
    body = page.render(r)
    return r.code, r.code != 404 and json.loads(body) or body


def run(c):
    clock = [1000.0]
    slow, lag, sli = Slow(clock), Slow(clock, "lag"), SLIMetricFactory()
    sli.configure({})
    mode = c["mode"]
    proc = (mode and ConfigurableMessageProcessor or MessageProcessor)(time_function=lambda: clock[0], plugins=[slow, lag, sli])
    svc = Service()
    svc.flush_interval = c["interval"]
    o = StatsDOptions()
    o["http-port"] = c["port"]
    s = httpinfo.makeService(o, proc, svc)
    if c["port"] is None:
        same(list(s), [], "services without a port")
        return
    same(s.args[0], c["port"], "port")
    root = s.args[1].resource
    flush_time = process_time = pending = 0
    names, timers, slows = set(), {}, set()
    for op in c["ops"]:
        if op[0] == "flush":
            slow.flushing = lag.flushing = op[1]
            n = len(slows)
            list(proc.flush(c["interval"], 90))
            flush_time, process_time, pending = n * op[1], pending, 0
            for k in timers:
                timers[k] = []
        elif op[0] == "partial":
            slow.flushing = lag.flushing = 7
            for x in proc.flush(c["interval"], 90):
                break
            # an unfinished flush does not count; undo what it has reset by not looking at it
            break
        else:
            kind, name, value, took = op
            # in one mode a timer and the metrics of plugins may share a name
            name = name + "." + (mode and c["shared"] and kind in ("ms", "slow") and "shared" or kind)
            slow.processing = lag.processing = took
            proc.process("%s:%s|%s" % (name, value, kind))
            if kind in ("slow", "lag"):
                slows.add(name)
                pending += took
            names.add(name)
            if kind == "ms":
                timers.setdefault(name, []).append(value)
    code, status = get(root, "status")
    same(sorted(status), ["flush_interval", "flush_time", "process_time", "status"], "fields of the status")
    close(status["flush_time"], flush_time * 1000.0, "flush_time")
    close(status["process_time"], process_time * 1000.0, "process_time")
    same(status["flush_interval"], c["interval"], "flush_interval")
    total, limit = (flush_time + process_time) * 1000.0, 0.7 * c["interval"]
    exact = all(x[-1] * 8 % 1 == 0 for x in c["ops"])       # then nothing is rounded
    if exact or abs(total - limit) > 0.01:
        same((code, status["status"]), total > limit and (500, "ERROR") or (200, "OK"), "status")
    code, listed = get(root, "list_metrics")
    same((code, sorted(listed["names"])), (200, sorted(names)), "names listed")
    partial = c["ops"] and c["ops"][-1][0] == "partial" or ["partial", 0] in c["ops"]
    for name in sorted(names) + ["unknown"]:
        code, page = get(root, "metrics/" + name)
        if mode and name in timers:
            same(code, 200, "page of %s" % name)
            if partial:
                continue
            v = [x for x in timers[name] if x >= 0]
            same(page["max_value"], v and max(v) or 0, "maximum of %s" % name)
            same(page["min_value"], v and min(v) or 0, "minimum of %s" % name)
            same(sum(page["histogram"]), len(v), "histogram of %s" % name)
        else:
            same(code, 404, "page of %s" % name)
