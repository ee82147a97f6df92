"""The HTTP resources over any processor state, and the durations the processor keeps for them."""
import z3
from pyded.core import HInst, HList, Sym, Unsupported, zi, zr, zs
from pyded.proof import PyExc, section
from contracts.common import *

MP, CP = PROC + "MessageProcessor", CONF + "ConfigurableMessageProcessor"
H = "txstatsd.server.httpinfo:"
FUNCTIONS = ["Status.__init__/render_GET", "ListMetrics.__init__/render_GET", "Metrics.__init__/getChild", "TimerResource.__init__/render_GET", "makeService",
             "MessageProcessor.get_metric_names/get_gauge_names/flush_metrics_summary", "ConfigurableMessageProcessor.get_gauge_names",
             "TimerMetricReporter.getResource/min/max"]
TRUSTED = ["json.dumps", "twisted.web: Resource.putChild, Site and TCPServer serve the resources added; NoResource answers 404; what render_GET returns is the body, with the code set by setResponseCode, else 200"]
ASSUMPTIONS = ["the histogram, minimum and maximum are those of C07 and C08"]


def web(p):
    """twisted.web's contract."""
    e = p.e
    put = lambda e, a, k: e.list_append(p.children, (a[0], a[1], a[2]))
    e.ext_classes["twisted.web.resource.Resource"] = {"__init__": Builtin("__init__", lambda e, a, k: None), "putChild": Builtin("putChild", put)}
    p.children = p.trace()
    p.external("json.dumps", lambda e, a, k: ("json", a[0]))
    p.missing = p.stub("no resource")
    p.external("twisted.web.resource.NoResource", lambda e, a, k: p.missing)
    e.extern["twisted.web.http.INTERNAL_SERVER_ERROR"] = 500
    p.codes = p.trace()
    return p.stub("request", {"setResponseCode": p.recorder(p.codes)})


def body(p, r, want):
    """The body is the JSON of a dict with these entries."""
    p.prove(isinstance(r, tuple) and r[0] == "json", "the body is JSON")
    p.eq(p.e.dict_len(r[1]), len(want), "with no other entry")
    for k, v in want.items():
        got = p.e.dict_get(r[1], k)
        p.prove(got is not None, "it has %s" % k)
        if got is not None:
            p.eq(got, v, "%s is as it should be" % k)


@section("Status.render_GET")
def status(p):
    def one():
        request = web(p)
        flush, process, interval = p.float("flush"), p.float("process"), p.int("interval")
        proc = p.stub("processor", {"last_flush_duration": flush, "last_process_duration": process})
        r = p.no_raise(lambda: p.new(H + "Status", proc, p.stub("service", {"flush_interval": interval})))
        out = p.no_raise(lambda: p.m(r, "render_GET", request))
        bad = p.e.branch(z3.ToReal(interval.t) * z3.Q(7, 10) < flush.t + process.t)
        body(p, out, {"flush_time": flush, "process_time": process, "flush_interval": interval, "status": "ERROR" if bad else "OK"})
        p.eq(p.codes, p.list((500,)) if bad else p.list(), "code 500 exactly when the durations add up to more than 70% of the interval")
    p.paths(one)


@section("MessageProcessor.flush_metrics_summary: durations")
def durations(p):
    def one():
        o = p.no_raise(lambda: p.new([MP, CP][p.e.choose(2)], clock(p)))
        names = ["counter", "timer", "gauge", "meter", "plugin"]
        d = [p.float("d_" + n) for n in names]
        per = p.dict([(n, (p.int("n_" + n), x)) for n, x in zip(names, d)])
        N, D = z3.Function("handled", z3.IntSort(), z3.IntSort()), z3.Function("time", z3.IntSort(), z3.RealSort())
        counts = p.e.sym_dict("by_type", lambda e, i, k: Sym("int", N(zi(i))), scalar="int")
        timings = p.e.parallel_dict("process_timings", counts, lambda e, i, k: Sym("float", D(zi(i))), scalar="float")
        p.set(o, "by_type", counts)
        p.set(o, "process_timings", timings)
        flush = process = 0
        for x in d:
            flush = add(p, flush, x)
        process = p.e.call(p.e.builtins["sum"], [p.m(timings, "values")], {})
        p.no_raise(lambda: p.e.iterate(p.m(o, "flush_metrics_summary", p.int("n"), per, p.int("timestamp")), lambda r: None))
        ms = lambda x: p.e.binop("Mult", x, 1000)
        p.eq(p.a(o, "last_flush_duration"), ms(flush), "the last flush's duration is the sum of its kinds', in milliseconds")
        p.eq(p.a(o, "last_process_duration"), ms(process), "the processing duration is the sum of all types', in milliseconds")
    p.paths(one)


def state(p, mode):
    """A processor that has seen any metrics of every kind."""
    o = p.no_raise(lambda: p.new([MP, CP][mode], clock(p)))
    maps = {}
    for k in ("counter", "timer", "meter", "plugin") + (("gauge",) if mode else ()):
        maps[k] = p.e.sym_dict(k + "_metrics", lambda e, i, k: Sym("int", zi(i)), scalar="int")
        p.set(o, k + "_metrics", maps[k])
    if not mode:
        V, K = z3.Function("gvalue", z3.IntSort(), z3.RealSort()), z3.Function("gkey", z3.IntSort(), z3.StringSort())
        b = p.base("gauges", None, mk=lambda e, i: p.list(Sym("float", V(zi(i))), Sym("str", K(zi(i)))))
        p.e.heap[p.a(o, "gauge_metrics").a].segs = [b]
        maps["gauge"] = b
    return o, maps


for _mode in (0, 1):
    @section("%s.get_metric_names" % ["MessageProcessor", "ConfigurableMessageProcessor"][_mode])
    def names(p, mode=_mode):
        def one():
            o, maps = state(p, mode)
            r = p.no_raise(lambda: p.m(o, "get_metric_names"))
            segs = [x for x in p.e.norm_segs(p.e.obj(r).segs)]
            if len(segs) == 1 and getattr(segs[0], "of", None) is not None:
                wrote = [x for x in segs[0].of if not isinstance(x, list) or x]
            else:
                wrote = segs
                p.prove(len(segs) <= 1, "each name is listed once")
            want = []
            for k, d in sorted(maps.items()):
                t = p.trace()
                if k == "gauge" and not mode:
                    p.e.iterate(p.listof(d), lambda x: p.e.list_append(t, p.e.list_get(x, 1)))
                else:
                    p.e.iterate_segs(p.e.dict_segs(d, "keys"), lambda x: p.e.list_append(t, x))
                want.append((k, t))
            got = [p.e.alloc(HList([x])) for x in wrote]
            hit = lambda x, y: equal(p, x, y)
            for k, t in want:
                p.prove(any(hit(g, t) for g in got), "the names of every %s are listed" % k)
            for g in got:
                p.prove(any(hit(g, t) for k, t in want), "and no others")
        p.paths(one)


def equal(p, a, b):
    try:
        return p.valid(p.e.eq(a, b))
    except Unsupported:
        return False


@section("ListMetrics.render_GET")
def listing(p):
    def one():
        request = web(p)
        names = p.listof(p.base("names", "str"))
        r = p.no_raise(lambda: p.new(H + "ListMetrics", p.stub("processor", {"get_metric_names": Builtin("names", lambda e, a, k: names)})))
        body(p, p.no_raise(lambda: p.m(r, "render_GET", request)), {"names": names})
        p.eq(p.codes, p.list(), "code 200")
    p.paths(one)


@section("Metrics.getChild")
def child(p):
    def one():
        request = web(p)
        made = []

        def metric(kind):
            def mk(e, i, k):
                page = Builtin("getResource", lambda e, a, kw: ("page of", kind, k))
                return p.stub(kind, {"getResource": page})
            return mk
        # a metric with a page, one without (a list of durations in compliant mode, a plugin's metric)
        paged = p.e.choose(2)
        plain = {"timer": lambda e, i, k: p.listof(p.base("durations", "float")), "plugin": lambda e, i, k: p.stub("plugin metric", {})}
        d = {k: p.e.sym_dict(k, metric(k) if paged else plain[k]) for k in ("timer", "plugin")}
        r = p.no_raise(lambda: p.new(H + "Metrics", p.stub("processor", {"timer_metrics": d["timer"], "plugin_metrics": d["plugin"]})))
        name = p.str("name")
        timer, plugin = p.e.dict_get(d["timer"], name), p.e.dict_get(d["plugin"], name)
        if not paged:
            p.assume(timer is None or plugin is None)       # one name for two metrics without pages of the same look
        out = p.no_raise(lambda: p.m(r, "getChild", name, request))
        if paged and (timer is not None or plugin is not None):
            p.prove(isinstance(out, tuple) and out[1] == ("timer" if timer is not None else "plugin"), "the page of the metric of that kind")
            p.eq(out[2], name, "and that name")
        else:
            p.prove(out is p.missing, "an unknown metric, or one without a page, is not found")
    p.paths(one)


@section("TimerMetricReporter.getResource and TimerResource.render_GET")
def timer(p):
    def one():
        request = web(p)
        t = p.no_raise(lambda: p.new(TIMER, p.str("name"), clock(p), ""))
        low, high, bins = p.float("low"), p.float("high"), p.listof(p.base("bins", "int"))
        for n, v in (("histogram", bins), ("min", low), ("max", high)):
            p.e.contracts[HIST + "." + n] = lambda e, f, a, k, v=v: v
        r = p.no_raise(lambda: p.m(t, "getResource"))
        body(p, p.no_raise(lambda: p.m(r, "render_GET", request)), {"histogram": bins, "min_value": low, "max_value": high})
        p.eq(p.codes, p.list(), "code 200")
    p.paths(one)


@section("makeService")
def service(p):
    def one():
        web(p)
        proc, svc = p.stub("processor", {"last_flush_duration": 1, "last_process_duration": 2}), p.stub("service")
        root_ = p.stub("root", {"putChild": Builtin("putChild", lambda e, a, k: e.list_append(p.children, ("root", a[0], a[1])))})
        p.e.ext_classes["twisted.web.resource.Resource"]["()"] = Builtin("Resource", lambda e, a, k: root_)
        multi, server = p.stub("multi"), p.stub("tcp server")
        made = []
        p.external("twisted.application.service.MultiService", lambda e, a, k: multi)
        p.external("twisted.web.server.Site", lambda e, a, k: ("site", a[0]))
        p.external("twisted.application.internet.TCPServer", lambda e, a, k: made.append(a) or server)
        port = [None, 8080, "8080"][p.e.choose(3)]
        s = p.no_raise(lambda: p.call(H + "makeService", p.dict([("http-port", port)]), proc, svc))
        if port is None:
            p.prove(s is multi and not made, "without a port nothing is served")
            return
        p.prove(s is server and len(made) == 1 and made[0][0] == 8080, "the site is served on the port configured")
        p.prove(made[0][1] == ("site", root_), "which is that of the root")
        got = {}
        p.e.iterate(p.children, lambda c: got.update({c[1]: c[2]}) if c[0] == "root" else None)
        p.prove(set(got) == {"status", "metrics", "list_metrics"}, "with the three pages")
        for n, c in (("status", "Status"), ("metrics", "Metrics"), ("list_metrics", "ListMetrics")):
            x = p.e.obj(got[n])
            p.prove(x.cls is p.get(H + c), "%s is at its place" % n)
            p.prove(any(v is proc for v in x.attrs.values()), "for this processor")
        p.prove(any(v is svc for v in p.e.obj(got["status"]).attrs.values()), "and this service")
    p.paths(one)
