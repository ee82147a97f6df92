"""The wiring of a server: any options, any number of destinations, hosts, ports and names given in any numbers."""
import z3
from pyded.core import ExtV, Sym, zi
from pyded.proof import PyExc, section
from contracts.common import *
from contracts import C23

S = "txstatsd.service:"
FUNCTIONS = ["createService", "StatsDServiceMaker.makeService", "httpinfo.makeService"]
TRUSTED = ["twisted.application: a service added to the root by setServiceParent is started and stopped with it; UDPServer and TCPServer listen on their port for their protocol or factory",
           "carbon: the client manager connects to what startClient is given and sends every datapoint to the destination its router chooses; settings are read when the clients are made",
           "getPlugins gives the plugins there are"]
ASSUMPTIONS = ["the constructors' own contracts: the processors (C01 to C10, C26), the router (C16), the protocols (C17), the flush (C03), the HTTP pages (C23), "
               "the self reporting (C22)", "log.info is not there yet in dump mode (createService runs once in a process)"]
CTORS = {"txstatsd.server.processor:MessageProcessor": ("time_function", "plugins"),
         "txstatsd.server.configurableprocessor:ConfigurableMessageProcessor": ("time_function", "message_prefix", "internal_metrics_prefix", "plugins"),
         "txstatsd.server.loggingprocessor:LoggingMessageProcessor": ("logger", "time_function", "message_prefix", "plugins"),
         "txstatsd.server.router:Router": ("message_processor", "rules_config", "service"),
         "txstatsd.client:InternalClient": ("processor",),
         "txstatsd.metrics.metrics:Metrics": ("connection", "namespace"),
         "txstatsd.metrics.extendedmetrics:ExtendedMetrics": ("connection", "namespace"),
         "txstatsd.report:ReportingService": ("instance_name", "clock"),
         "txstatsd.report:ReactorInspectorService": ("reactor", "metrics", "loop_time"),
         "txstatsd.service:StatsDService": ("carbon_client", "processor", "flush_interval", "clock"),
         "txstatsd.server.protocol:StatsDServerProtocol": ("processor", "monitor_message", "monitor_response"),
         "txstatsd.server.protocol:StatsDTCPServerFactory": ("processor", "monitor_message", "monitor_response")}
NONE = object()


class Wiring(object):
    """The options and everything createService builds from them, each by its contract: what it was given, and its parent."""

    def __init__(self, p, report=None, counts=None):
        self.p, self.made, self.parents, self.order = p, {}, {}, []
        e = self.e = p.e
        for path, params in CTORS.items():
            e.contracts[path] = lambda e, c, a, k, path=path, params=params: self.make(path.split(":")[1], params, a, k)
        web = "twisted.application."
        self.root = p.stub("root", {"setName": Builtin("setName", lambda e, a, k: None), "addService": Builtin("addService", lambda e, a, k: self.parent(a[0], self.root))})
        p.external(web + "service.MultiService", lambda e, a, k: self.root)
        p.external(web + "internet.UDPServer", lambda e, a, k: self.make("UDPServer", None, a, k))
        p.external(web + "internet.TCPServer", lambda e, a, k: self.make("TCPServer", None, a, k))
        e.contracts["txstatsd.server.httpinfo:makeService"] = lambda e, c, a, k: self.make("http", ("options", "processor", "statsd_service"), a, k)
        self.configured = p.trace()
        self.plugin = z3.Function("plugin", z3.IntSort(), p.obj_("some").t.sort())
        plugins = p.base("plugins", None, mk=lambda e, i: Stub("plugin", {"configure": Builtin(
            "configure", lambda e, a, k: e.list_append(self.configured, (Sym("int", zi(i)), a[0])))}, term=self.plugin(zi(i))))
        self.plugins = p.listof(plugins)
        self.nplugins = plugins.n
        p.external("twisted.plugin.getPlugins", lambda e, a, k: self.plugins)
        self.node = p.str("node")
        p.external("platform.node", lambda e, a, k: self.node)
        self.settings, self.at_start = {}, []
        e.extern["carbon.conf.settings"] = p.stub("settings", {"=": lambda e, n, v: self.settings.__setitem__(n, v)})
        self.crouter = p.stub("carbon router")
        p.external("carbon.routers.ConsistentHashingRouter", lambda e, a, k: self.crouter)
        self.clients = p.trace()

        def start(e, a, k):
            self.at_start.append(dict(self.settings))
            e.list_append(self.clients, a[0])
        p.external("carbon.client.CarbonClientManager", lambda e, a, k: self.make("manager", ("router",), a, k, {"startClient": Builtin("startClient", start)}))
        self.log = p.stub("log", {"msg": Builtin("msg", lambda e, a, k: None), "=": lambda e, n, v: None})
        e.extern["twisted.python.log"] = self.log
        self.opts = {"listen-port": p.int("port"), "flush-interval": p.int("interval"), "prefix": None, "instance-name": None, "report": report,
                     "monitor-message": p.str("ping"), "monitor-response": p.str("pong"), "statsd-compliance": 1, "dump-mode": 0, "routing": p.str("routing"),
                     "listen-tcp-port": None, "max-queue-size": p.int("queue"), "max-datapoints-per-message": p.int("datapoints"), "http-port": None}
        p.assume(self.opts["flush-interval"].t >= 0)
        self.given = {}
        for n, kind in (("host", "str"), ("port", "int"), ("name", "str")):
            self.given[n] = p.list() if counts is None else counts(n, kind)
            self.opts["carbon-cache-" + n] = self.given[n]

    def make(self, name, params, a, k, attrs=None):
        p = self.p
        if params is not None:
            k = dict(zip(params, a), **k)
            a = ()
        s = p.stub(name, dict(attrs or {}))
        s.attrs["setServiceParent"] = Builtin("setServiceParent", lambda e, a, k: self.parent(s, a[0]))
        if name in ("Metrics", "ExtendedMetrics"):
            s.attrs["gauge"] = p.stub("gauge")
        if name == "ReportingService":
            s.attrs["schedule"] = Builtin("schedule", lambda e, a, k: None)
        s.kw, s.args = k, a
        self.made.setdefault(name, []).append(s)
        return s

    def parent(self, s, to):
        self.parents.setdefault(id(s), []).append(to)

    def run(self, *reactor):
        p = self.p
        p.e.loaded_process = True
        self.options = p.dict(sorted(self.opts.items()))
        r = p.no_raise(lambda: p.call(S + "createService", self.options, *reactor))
        p.decided(r is self.root, "the root service is returned", "identity")
        return r

    def one(self, name):
        """The only one of its kind."""
        x = self.made.get(name, [])
        self.p.decided(len(x) == 1, "there is one %s" % name, "identity", repr(x))
        if len(x) != 1:
            from pyded.proof import PathEnd
            raise PathEnd()
        return x[0]

    def none(self, name):
        self.p.decided(not self.made.get(name), "there is no %s" % name, "identity")

    def child(self, s):
        up = self.parents.get(id(s), [])
        self.p.decided(len(up) == 1 and up[0] is self.root, "%s belongs to the root service, once" % s.name, "identity", repr(up))

    def is_(self, x, y, name):
        x, y = [self.e.extern.get(v.path, v) if isinstance(v, ExtV) else v for v in (x, y)]
        self.p.decided(x is y, name, "identity", "%r, not %r" % (x, y))


def maybe(p, name, what):
    """An option that may not be given."""
    return None if p.e.choose(2) else what(name)


@section("the processor")
def processor(p):
    """Of the mode and the prefix configured, with every plugin, each of which was given the options."""
    def one():
        w = Wiring(p)
        dump, compliance = p.int("dump"), p.int("compliance")
        prefix, instance = maybe(p, "prefix", p.str), maybe(p, "instance", p.str)
        w.opts.update({"dump-mode": dump, "statsd-compliance": compliance, "prefix": prefix, "instance-name": instance})
        w.run()
        e = p.e
        router = w.one("Router")
        dumps, complies = e.branch(dump.t != 0), e.branch(compliance.t != 0)
        name = "LoggingMessageProcessor" if dumps else "MessageProcessor" if complies else "ConfigurableMessageProcessor"
        for n in ("LoggingMessageProcessor", "MessageProcessor", "ConfigurableMessageProcessor"):
            if n != name:
                w.none(n)
        proc = w.one(name)
        w.is_(router.kw.get("message_processor"), proc, "the router's processor is that of the mode")
        p.eq(router.kw.get("rules_config"), w.opts["routing"], "with the routing rules configured")
        w.is_(router.kw.get("service"), w.root, "and the root service, for the clients and listeners of its rules")
        if dumps:
            w.is_(proc.kw.get("logger"), w.log, "what is received and flushed is logged")
        if complies:
            p.decided("message_prefix" not in proc.kw or proc.kw["message_prefix"] == "", "no prefix of its own", "identity")
        else:
            pre = prefix if prefix is not None else "statsd"
            who = instance
            if who is None or not e.branch(e.truth(who)):
                who = w.node
            p.eq(proc.kw.get("message_prefix"), pre, "the prefix configured, or statsd")
            p.eq(proc.kw.get("internal_metrics_prefix"), cat(p, pre, ".", who, "."), "with the instance's name for its own")
        p.decided("time_function" not in proc.kw, "with the system's clock", "identity")
    p.paths(one)


@section("the plugins")
def plugins(p):
    def one():
        w = Wiring(p)
        mode = p.e.choose(3)
        w.opts.update({"dump-mode": 1 if mode == 2 else 0, "statsd-compliance": 1 if mode == 1 else 0})
        w.run()
        proc = w.one(["ConfigurableMessageProcessor", "MessageProcessor", "LoggingMessageProcessor"][mode])
        p.eq(proc.kw["plugins"], w.plugins, "the processor has every plugin")
        p.eq(p.e.list_len(w.configured), Sym("int", zi(w.nplugins)), "each is configured, once")
        j = p.int("j")
        p.assume(z3.And(j.t >= 0, j.t < zi(w.nplugins)))
        got = p.e.list_get(w.configured, j)
        p.eq(got[0], j, "in any order, here the one they have")
        p.same(got[1], w.options, "with the options")
    p.paths(one)


@section("the listeners")
def listeners(p):
    """UDP on its port; TCP and HTTP if there is a port for them; what they receive goes to the router."""
    def one():
        w = Wiring(p)
        tcp, mode = maybe(p, "tcp", p.int), p.e.choose(3)
        w.opts.update({"listen-tcp-port": tcp, "dump-mode": 1 if mode == 2 else 0, "statsd-compliance": 1 if mode == 1 else 0, "http-port": maybe(p, "http", p.int)})
        w.run()
        router = w.one("Router")

        def talk(x, name):
            w.is_(x.kw.get("processor"), router, "%s: what is received goes to the router" % name)
            p.eq(x.kw.get("monitor_message"), w.opts["monitor-message"], "%s: the monitoring agent's message" % name)
            p.eq(x.kw.get("monitor_response"), w.opts["monitor-response"], "%s: and the response" % name)
        proto, udp = w.one("StatsDServerProtocol"), w.one("UDPServer")
        talk(proto, "UDP")
        p.decided(len(udp.args) == 2 and not udp.kw, "UDP: all interfaces", "identity")
        p.eq(udp.args[0], w.opts["listen-port"], "UDP: on the port configured")
        w.is_(udp.args[1], proto, "UDP: by the protocol")
        w.child(udp)
        if tcp is None:
            w.none("TCPServer")
        else:
            fac, srv = w.one("StatsDTCPServerFactory"), w.one("TCPServer")
            talk(fac, "TCP")
            p.decided(len(srv.args) == 2 and not srv.kw, "TCP: all interfaces", "identity")
            p.eq(srv.args[0], tcp, "TCP: on the port configured")
            w.is_(srv.args[1], fac, "TCP: by the factory's protocols")
            w.child(srv)
        http = w.one("http")
        p.same(http.kw.get("options"), w.options, "HTTP: as the options say")
        w.is_(http.kw.get("processor"), router.kw.get("message_processor"), "HTTP: about the processor")
        w.is_(http.kw.get("statsd_service"), w.one("StatsDService"), "HTTP: and the flushing service")
        w.child(http)
    p.paths(one)


section("the HTTP service")(C23.service)


@section("the flush")
def flush(p):
    """One carbon client, which every flush of the router is sent through, at the interval configured; its limits are set before it connects."""
    def one():
        w = Wiring(p)
        mode = p.e.choose(3)
        w.opts.update({"dump-mode": 1 if mode == 2 else 0, "statsd-compliance": 1 if mode == 1 else 0})
        w.run()
        svc, man = w.one("StatsDService"), w.one("manager")
        w.is_(svc.kw.get("carbon_client"), man, "every flush goes to the carbon client")
        w.is_(svc.kw.get("processor"), w.one("Router"), "of what the router's processor has")
        p.eq(svc.kw.get("flush_interval"), w.opts["flush-interval"], "at the interval configured")
        p.decided("clock" not in svc.kw, "by the reactor's clock", "identity")
        w.child(svc)
        w.child(man)
        w.is_(man.kw.get("router"), w.crouter, "the client distributes metrics by their hash")
        p.decided(len(w.at_start) > 0, "there is a destination", "identity")
        for s in w.at_start:
            p.eq(s.get("MAX_QUEUE_SIZE"), w.opts["max-queue-size"], "the queue's limit is set before the client connects")
            p.eq(s.get("MAX_DATAPOINTS_PER_MESSAGE"), w.opts["max-datapoints-per-message"], "and so is the messages'")
    p.paths(one)


@section("the destinations")
def destinations(p):
    """Destination i is the i-th host, port and name, each with its default if there is none; there is one for each, and at least one."""
    def one():
        bases = {}

        def counts(n, kind):
            bases[n] = p.base(n + "s", kind)
            return p.listof(bases[n])
        w = Wiring(p, counts=counts)
        before = {n: p.listof(bases[n]) for n in bases}
        w.run()
        e = p.e
        most = z3.IntVal(1)
        for n in bases:
            most = z3.If(zi(bases[n].n) > most, zi(bases[n].n), most)
        p.eq(e.list_len(w.clients), Sym("int", z3.simplify(most)), "there are as many as the longest list has, at least one")
        j = p.int("j")
        p.assume(z3.And(j.t >= 0, j.t < most))
        got = e.list_get(w.clients, j)
        for i, (n, default) in enumerate((("host", "127.0.0.1"), ("port", 2004), ("name", None))):
            if e.branch(j.t < zi(bases[n].n)):
                p.eq(got[i], e.list_get(before[n], j), "its %s" % n)
            else:
                p.eq(got[i], default, "the default %s" % n)
    p.paths(one)


@section("the reports")
def reports(p):
    """Reporting about the server itself goes through the router too, and does not get in the way of the wiring."""
    def one():
        w = Wiring(p, report=[None, "process", "net, reactor", "system,io,process"][p.e.choose(4)])
        compliance = p.e.choose(2)
        w.opts["statsd-compliance"] = compliance
        w.run(*([p.stub("reactor")] if p.e.choose(2) else []))
        client, metrics = w.one("InternalClient"), w.one("Metrics" if compliance else "ExtendedMetrics")
        w.is_(client.kw.get("processor"), w.one("Router"), "what is reported goes to the router")
        w.is_(metrics.kw.get("connection"), client, "through the internal client")
        w.child(w.one("ReportingService"))
        for x in w.made.get("ReactorInspectorService", []):
            w.child(x)
    p.paths(one)


@section("the plugin for twistd")
def maker(p):
    """twistd builds the service from the options it parsed."""
    def one():
        e = p.e
        calls, root, options = p.trace(), p.stub("root"), p.stub("options")
        e.contracts[S + "createService"] = lambda e, f, a, k: e.list_append(calls, tuple(a)) or root
        m = p.get("twisted.plugins.txstatsd_plugin:serviceMaker")
        r = p.no_raise(lambda: p.m(m, "makeService", options))
        p.decided(r is root, "the service made", "identity")
        p.eq(calls, p.list((options,)), "from these options")
        p.decided(p.a(m, "options") is p.get(S + "StatsDOptions"), "the options are the server's", "identity")
        p.decided(p.a(m, "tapname") == "statsd", "the command is statsd", "identity")
    p.paths(one)
