"""Servers created from random options: the services they consist of, where the gauges sent to their listeners come out after a flush,
and the destinations they connect to."""
from hlib import check, same
from twisted.application.internet import TCPServer, UDPServer
from twisted.internet import task
from twisted.python import log
from twisted.web.server import Site
from carbon.client import CarbonClientManager
from carbon.conf import settings
from txstatsd import service
from txstatsd.server.protocol import StatsDTCPServerFactory
import platform

RULE = "random options of every kind, 0-3 hosts, ports and names each, 0-2 routing rules, 1-6 gauges sent by UDP and TCP; non-trivial with two options given"
RULES = {"path_like a* => drop": lambda n: None if n.startswith("a") else n, "not path_like b* => rewrite ^c new.c": lambda n: "new.c" + n[1:] if n.startswith("c") else n,
         "metric_type c => drop": lambda n: n, "path_like ?2 => rewrite 2 two": lambda n: n.replace("2", "two") if len(n) == 2 and n[1] == "2" else n}
HOSTS, CACHES = ["h1", "h2", "127.0.0.1", "10.0.0.7"], ["a", "b", "c"]


def cases(rng, tier):
    while True:
        o = {}
        for name, some in (("listen-port", [8125, 0, 9]), ("listen-tcp-port", [8125, 0, 9]), ("http-port", [8080, 8081]), ("prefix", ["pre", "a.b", ""]), ("instance-name", ["me", "x.y", ""]),
                           ("flush-interval", [1000, 60000, 10000]), ("statsd-compliance", [0, 1, 0, 2]), ("dump-mode", [0, 1]), ("max-queue-size", [0, 5, 100]),
                           ("max-datapoints-per-message", [1, 7]), ("monitor-message", ["ping", "a:1|g"]), ("monitor-response", ["pong", ""]), ("report", ["process", "net, io", "", "none"])):
            if rng.random() < 0.4:
                o[name] = rng.choice(some)
        n = [rng.choice([0, 1, 1, 2, 3]) for _ in range(3)]
        if rng.random() < 0.5:
            n = [n[0]] * 3
        yield {"options": o, "rules": rng.sample(sorted(RULES), rng.choice([0, 0, 1, 2])), "hosts": rng.sample(HOSTS, n[0]), "ports": rng.sample([2004, 2005, 2006, 65535], n[1]),
               "names": rng.sample(CACHES, n[2]), "msgs": [[rng.choice("abc") + rng.choice("12"), rng.randint(-5, 99), rng.random() < 0.4] for _ in range(rng.randint(1, 6))]}


def nontrivial(c):
    return len(c["options"]) > 1


def valid(c):
    return all(r in RULES for r in c["rules"]) and all(len(m) == 3 and len(m[0]) == 2 for m in c["msgs"])


class Turn(object):
    def __init__(self, f):
        self.f = f

    def cancel(self):
        self.f = None


class Transport(object):
    disconnecting = False

    def __init__(self):
        self.out = []
        self.reactor = task.Clock()

    def write(self, data, addr=None):
        self.out.append(data)

    def loseConnection(self):
        pass


def run(c):
    try:
        server(c)
    finally:
        if hasattr(log, "info"):
            del log.info        # createService asserts that it is not there: it runs once in a process


def server(c):
    given = c["options"]
    argv = []
    for k in sorted(given):
        argv += ["--" + k, str(given[k])]
    for k, vs in (("host", c["hosts"]), ("port", c["ports"]), ("name", c["names"])):
        for v in vs:
            argv += ["--carbon-cache-" + k, str(v)]
    if c["rules"]:
        argv += ["--routing", "\n".join(c["rules"])]
    o = service.StatsDOptions()
    o.parseOptions(argv)
    opt = lambda k, d: given.get(k, d)
    ports, names = list(c["ports"]), list(c["names"])
    number = max(1, len(c["hosts"]), len(ports), len(names))
    fill = lambda xs, d: list(xs) + [d] * (number - len(xs))
    want = zip(fill(c["hosts"], "127.0.0.1"), fill(ports, 2004), fill(names, None))
    if len(set((h, n) for h, p, n in want)) < number:
        return      # carbon refuses two caches of the same host and name
    turns, logged, started = [], [], []
    real, start = task.Cooperator, CarbonClientManager.startClient

    def schedule(f):
        t = Turn(f)
        turns.append(t)
        return t

    def starting(self, destination):
        started.append((settings.MAX_QUEUE_SIZE, settings.MAX_DATAPOINTS_PER_MESSAGE))
        return start(self, destination)
    task.Cooperator = lambda *a, **k: real(terminationPredicateFactory=lambda: lambda: True, scheduler=schedule)
    CarbonClientManager.startClient = starting
    try:
        root = service.createService(o)
    finally:
        task.Cooperator = real
        CarbonClientManager.startClient = start
    kids = list(root)
    of = lambda cls: [s for s in kids if isinstance(s, cls)]
    udp, manager, svc = of(UDPServer), of(CarbonClientManager), of(service.StatsDService)
    tcp = [s for s in of(TCPServer) if isinstance(s.args[1], StatsDTCPServerFactory)]
    http = [s for s in of(TCPServer) if isinstance(s.args[1], Site)]
    same(len(of(TCPServer)), len(tcp) + len(http), "TCP listeners")
    same([s.args[0] for s in udp], [opt("listen-port", 8125)], "UDP ports")
    same([s.args[0] for s in tcp], [given[k] for k in ("listen-tcp-port", ) if k in given], "TCP ports")
    same([s.args[0] for s in http], [given[k] for k in ("http-port", ) if k in given], "HTTP ports")
    same(len(manager), 1, "carbon clients")
    same(len(svc), 1, "flushing services")
    same(sorted(manager[0].client_factories), sorted(want), "destinations")
    same(set(started), set([(opt("max-queue-size", 20000), opt("max-datapoints-per-message", 1000))]), "limits when the clients are made")
    observe = lambda e: logged.append(" ".join(map(str, e.get("message", ()))))
    log.addObserver(observe)
    try:
        flushed(c, opt, udp[0], tcp, manager[0], svc[0], turns, logged)
    finally:
        log.removeObserver(observe)


def flushed(c, opt, udp, tcp, manager, svc, turns, logged):
    got = []
    manager.sendDatapoint = lambda metric, datapoint: got.append((metric, datapoint[1]))
    proto = udp.args[1]
    proto.transport = Transport()
    ping, pong = opt("monitor-message", "txstatsd ping"), opt("monitor-response", "txstatsd pong")
    proto.datagramReceived(ping, ("127.0.0.1", 9))
    same(proto.transport.out, [pong], "the answer to the monitoring agent by UDP")
    if tcp:
        conn = tcp[0].args[1].buildProtocol(None)
        conn.transport = Transport()
        conn.makeConnection(conn.transport)
        conn.dataReceived(ping + "\r\n")
        same("".join(conn.transport.out).rstrip("\r\n"), pong, "the answer to the monitoring agent by TCP")
    last, each = {}, []
    dump, compliant, prefix = opt("dump-mode", 0), opt("statsd-compliance", 1), opt("prefix", "statsd")
    for name, value, by_tcp in c["msgs"]:
        text = "%s:%d|g" % (name, value)
        if text == ping:
            continue
        if by_tcp and tcp:
            conn.dataReceived(text + "\r\n")
            conn.transport.reactor.advance(1)
        else:
            proto.datagramReceived(text, ("127.0.0.1", 9))
            proto.transport.reactor.advance(1)
        for r in c["rules"]:
            name = name and RULES[r](name)
        if name is not None:
            last[name] = value
            each.append((name, value))
            if dump:
                check(any("%s:%d|g" % (name, value) in m or text in m for m in logged), "%s is not logged in dump mode: %r", text, logged)
    svc.flushProcessor()
    steps = 0
    while turns:
        f = turns.pop(0).f
        if f is not None:
            f()
        steps += 1
        check(steps < 10000, "the flush does not end")
    internal = ("flush.", "receive.", "numStats", "process.")
    if compliant and not dump:
        want = [("stats.gauge.%s.value" % n, v) for n, v in each]
        own = "statsd."
    else:
        pre = "" if compliant else prefix + "." if prefix else ""
        want = [("%s%s.value" % (pre, n), v) for n, v in last.items()]
        own = "statsd." if compliant else prefix + "." + (opt("instance-name", "") or platform.node()) + "."
    is_own = lambda m: m.startswith(own) and m[len(own):].startswith(internal)
    same(sorted(x for x in got if not is_own(x[0])), sorted(want), "what carbon gets of the gauges")
    check(any(is_own(m) for m, v in got), "none of the server's own metrics starts with %r: %r", own, got)
    if dump:
        for m, v in got:
            check(any(m in text for text in logged), "%s is not logged in dump mode", m)
