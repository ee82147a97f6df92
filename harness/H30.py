"""Random lives of a TCP redirect on a simulated reactor with twisted's own connectors and reconnecting factory."""
from hlib import check, same
from twisted.internet import task
from twisted.internet.base import BaseConnector
from twisted.internet.error import ConnectionDone, ConnectionRefusedError
from twisted.python import failure, log
from txstatsd.server.router import TCPRedirectClientFactory, TCPRedirectService

RULE = "random starts, stops, connections made, refused and lost, lines and passing of time; non-trivial with a stop after a start"


class Quiet(object):
    def write(self, text):
        pass
    flush = close = lambda self: None


log.DefaultObserver.stderr = Quiet()


def cases(rng, tier):
    while True:
        ops = [["line"]] * rng.choice([0, 0, 1])
        if rng.random() < 0.95:
            ops.append(["start"])
        for _ in range(rng.randint(0, 10)):
            ops.append([rng.choice(["made", "made", "made", "refused", "lost", "line", "line", "time", "time", "pause", "resume"])])
        if rng.random() < 0.8:
            ops.append(["stop"])
            for _ in range(rng.randint(0, 5)):
                ops.append([rng.choice(["made", "refused", "lost", "line", "time"])])
        yield {"callback": rng.random() < 0.5, "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return "start" in k and "stop" in k


def valid(c):
    k = [o[0] for o in c["ops"]]
    return k.count("start") <= 1 and k.count("stop") <= 1 and ("stop" not in k or "start" not in k or k.index("start") < k.index("stop")) and \
        all(x in ("start", "stop", "made", "refused", "lost", "line", "time", "pause", "resume") for x in k)


class Transport(object):
    """Sends nothing and knows its connector."""
    def __init__(self, reactor, connector):
        self.reactor, self.connector, self.data, self.open, self.failed = reactor, connector, [], False, False
        reactor.transports.append(self)

    def failIfNotConnected(self, reason):
        if not self.open and not self.failed:
            self.failed = True
            self.connector.connectionFailed(failure.Failure(reason))

    def made(self):
        self.open = True
        self.protocol = self.connector.buildProtocol(("host", 1))
        self.protocol.makeConnection(self)

    def lost(self):
        self.open = False
        reason = failure.Failure(ConnectionDone())
        self.protocol.connectionLost(reason)
        self.connector.connectionLost(reason)

    def loseConnection(self):
        if self.open:
            self.reactor.callLater(0, lambda: self.open and self.lost())

    abortConnection = loseConnection

    producer, paused = None, False

    def registerProducer(self, producer, streaming):
        self.producer = producer

    def write(self, data):
        if self.open:
            self.data.append(data)


class Connector(BaseConnector):
    def _makeTransport(self):
        return Transport(self.reactor, self)


class Reactor(task.Clock):
    def __init__(self):
        task.Clock.__init__(self)
        self.transports, self.attempts = [], []

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        self.attempts.append((host, port, bindAddress))
        c = Connector(factory, timeout, self)
        c.connect()
        return c


def run(c):
    reactor, called = Reactor(), []
    f = TCPRedirectClientFactory(c["callback"] and (lambda: called.append(1)) or None, reactor=reactor)
    f.clock = reactor
    f.noisy = False
    f.jitter = 0
    s = TCPRedirectService("host", 2345, f, reactor=reactor)
    started = stopped = False
    made, n = 0, 0

    def attempts():
        return [t for t in reactor.transports if not t.open and not t.failed and not hasattr(t, "protocol")]

    def opened():
        return [t for t in reactor.transports if t.open]
    for op in c["ops"]:
        op = op[0]
        if op == "start":
            s.startService()
            started = True
        elif op == "stop":
            s.stopService()
            reactor.advance(0)
            stopped = True
            seen = len(reactor.transports)
        elif op == "made" and attempts():
            check(not stopped, "an attempt to connect was under way after the stop")
            attempts()[0].made()
            made += 1
        elif op == "refused" and attempts():
            attempts()[0].failIfNotConnected(ConnectionRefusedError())
        elif op == "lost" and opened():
            opened()[0].lost()
            if started and not stopped:
                check(f._callID and f._callID.getTime() - reactor.seconds() <= f.initialDelay * f.factor + 0.01, "the delay after a lost connection is not the shortest")
        elif op == "pause" and opened() and opened()[0].producer and not opened()[0].paused:
            opened()[0].paused = True
            opened()[0].producer.pauseProducing()
        elif op == "resume" and opened() and opened()[0].paused:
            opened()[0].paused = False
            opened()[0].producer.resumeProducing()
        elif op == "line":
            n += 1
            before = [len(t.data) for t in reactor.transports]
            now = opened()
            f.write("line%d:1|c" % n)
            for t, b in zip(reactor.transports, before):
                same(t.data[b:], t in now and not t.paused and ["line%d:1|c\r\n" % n] or [], "sent on a connection")
        elif op == "time":
            before = len(reactor.transports)
            waiting = started and not stopped and not attempts() and not opened()
            reactor.advance(1)
            if waiting:
                reactor.advance(4000)       # more than the longest delay between two attempts
                reactor.advance(0)
                check(len(reactor.transports) > before, "no further attempt to connect after a connection was lost or refused")
        live = len(attempts()) + len(opened())
        check(live <= 1, "%d connections or attempts at once", live)
        if stopped:
            same(live, 0, "connections and attempts after the stop")
            same(len(reactor.transports), seen, "attempts after the stop")
        elif started:
            check(live or f._callID, "there is no connection, attempt or retry")
        else:
            same(live, 0, "connections and attempts before the start")
    same(reactor.attempts, started and [("host", 2345, None)] or [], "calls of connectTCP")
    reactor.advance(0)
    same(len(called), c["callback"] and made and 1 or 0, "calls of the connect callback")
    if stopped:
        reactor.advance(5000)
        same(len(reactor.transports), seen, "attempts long after the stop")
