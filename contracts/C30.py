"""The life of a TCP redirect: starting and stopping its service in every state of its connection, and every connection made, lost or failed."""
import z3
from pyded.core import Sym, zi
from pyded.proof import PyExc, section
from contracts.common import *

R = "txstatsd.server.router:"
SERVICE, FACT = R + "TCPRedirectService", R + "TCPRedirectClientFactory"
FUNCTIONS = ["TCPRedirectService.__init__/startService/stopService", "TCPRedirectClientFactory.__init__/buildProtocol/write", "TCPRedirectProtocol.write (through the factory)"]
TRUSTED = ["twisted: connectTCP(host, port, factory) begins one attempt to connect and gives its connector, which is used again for the factory's retries",
           "twisted: a connector's disconnect() ends the attempt under way or closes the open connection; a transport's loseConnection() closes it",
           "twisted: ReconnectingClientFactory tries again after a failed attempt or a lost connection unless stopTrying() was called; stopTrying() ends a retry that is waiting "
           "and the attempt under way if there was a retry before; resetDelay() (called when connected) makes it try again from then on, with the shortest delay, which grows with every retry"]
ASSUMPTIONS = ["the service is started once, and stopped at most once"]
STATES = ["not started", "first attempt", "connected", "waiting to retry", "second attempt", "connected again"]


class World(object):
    """twisted's reactor, connector and reconnecting factory, as far as their contracts go."""

    def __init__(self, p):
        self.p = p
        e = p.e
        self.attempts, self.state, self.retry, self.trying, self.known = [], "disconnected", False, True, False
        self.later, self.written = [], []
        self.grown, self.delays = 0, []     # retries since the delay between two of them was reset, at each retry
        p.external("time.time", lambda e, a, k: p.float("now"))
        e.ext_classes["twisted.application.service.Service"] = {
            "running": 0, "startService": Builtin("startService", lambda e, a, k: p.set(a[0], "running", 1)), "stopService": Builtin("stopService", lambda e, a, k: p.set(a[0], "running", 0))}
        b = lambda name, f: Builtin(name, lambda e, a, k: f())
        e.ext_classes["twisted.internet.protocol.ReconnectingClientFactory"] = {
            "__init__": b("__init__", lambda: None), "stopTrying": b("stopTrying", self.stop_trying), "resetDelay": b("resetDelay", self.reset), "protocol": None,
            "clientConnectionLost": b("clientConnectionLost", self.again), "clientConnectionFailed": b("clientConnectionFailed", self.again)}
        e.ext_classes["twisted.internet.protocol.Protocol"] = {"transport": None}
        self.connector = p.stub("connector", {"disconnect": b("disconnect", self.close), "stopConnecting": b("stopConnecting", self.stop_connecting)})
        self.reactor = p.stub("reactor", {"connectTCP": Builtin("connectTCP", lambda e, a, k: self.connect(a, k)),
                                          "callLater": Builtin("callLater", lambda e, a, k: self.later.append((a, k)))})

    def connect(self, a, k):
        self.attempts.append((tuple(a), k))
        self.state = "connecting"
        return self.connector

    def close(self):
        if self.state == "connecting":
            self.state = "disconnected"
        elif self.state == "connected":
            self.state = "closing"

    def stop_connecting(self):
        if self.state != "connecting":
            self.p.e.throw("RuntimeError")
        self.state = "disconnected"

    def stop_trying(self):
        self.retry, self.trying = False, False
        if self.known and self.state == "connecting":
            self.state = "disconnected"

    def reset(self):
        self.trying, self.grown = True, 0

    def again(self):
        if self.trying:
            self.delays.append(self.grown)
            self.grown += 1
            self.known, self.retry = True, True

    # what happens to the connection
    def connected(self, f):
        p = self.p
        self.state = "connected"
        o = p.no_raise(lambda: p.m(f, "buildProtocol", p.stub("address")))
        n = len(self.written)
        self.written.append(p.trace())
        p.set(o, "transport", p.stub("transport", {"write": p.recorder(self.written[n]), "registerProducer": Builtin("registerProducer", lambda e, a, k: None),
                                                   "loseConnection": Builtin("loseConnection", lambda e, a, k: self.lose(n)),
                                                   "abortConnection": Builtin("abortConnection", lambda e, a, k: self.lose(n))}))
        p.no_raise(lambda: p.m(o, "connectionMade"))
        self.proto = o

    def lose(self, n):
        if n == len(self.written) - 1 and self.state == "connected":
            self.state = "closing"

    def lost(self, f):
        p = self.p
        self.state = "disconnected"
        p.no_raise(lambda: p.m(f, "clientConnectionLost", self.connector, p.stub("reason")))
        p.decided(self.retry, "when the connection is lost the factory tries again", "syntactic")
        p.decided(self.delays[-1:] == [0], "after the shortest delay, however many attempts failed before the connection", "syntactic", repr(self.delays))

    def failed(self, f):
        p = self.p
        self.state = "disconnected"
        p.no_raise(lambda: p.m(f, "clientConnectionFailed", self.connector, p.stub("reason")))
        p.decided(self.retry, "when an attempt fails the factory tries again", "syntactic")

    def attempt(self):
        self.retry, self.state = False, "connecting"


def redirect(p, cb=None):
    w = World(p)
    f = p.no_raise(lambda: p.new(FACT, cb, reactor=w.reactor))
    host, port = p.str("host"), p.int("port")
    s = p.no_raise(lambda: p.new(SERVICE, host, port, f, reactor=w.reactor))
    p.decided(w.attempts == [] and w.state == "disconnected", "before its start it does not connect", "syntactic")
    return w, f, s, host, port


def start(p, w, s, f, host, port):
    p.no_raise(lambda: p.m(s, "startService"))
    p.decided(len(w.attempts) == 1, "starting makes one attempt to connect", "syntactic", repr(w.attempts))
    if len(w.attempts) != 1:
        from pyded.proof import PathEnd
        raise PathEnd()
    a, k = w.attempts[0]
    got = dict(zip(("host", "port", "factory", "timeout", "bindAddress"), a), **k)
    p.eq(got.get("host"), host, "to the host given")
    p.eq(got.get("port"), port, "and the port given")
    p.same(got.get("factory"), f, "by the factory given")
    p.decided("bindAddress" not in got or got["bindAddress"] is None, "from any address", "syntactic")
    p.decided(w.state == "connecting", "and lets it go on", "syntactic")
    p.decided(p.a(s, "running") == 1, "the service runs", "syntactic")


@section("TCPRedirectService and TCPRedirectClientFactory: one connection while it runs")
def running(p):
    """Started once; however often attempts fail and connections are lost, the factory goes on, and lines go to the latest connection only."""
    def one():
        called = p.trace()
        cb = p.recorder(called) if p.e.choose(2) else None
        w, f, s, host, port = redirect(p, cb)
        early, line = p.str("early"), p.str("line")
        p.no_raise(lambda: p.m(f, "write", early), "a line before the start is discarded without error")
        start(p, w, s, f, host, port)
        n = 0
        for turn in range(2):
            if p.e.choose(2):
                w.failed(f)
                w.attempt()
            w.connected(f)
            n += 1
            p.decided(w.state == "connected" and w.trying, "a connection made is kept", "syntactic", w.state)
            p.eq(p.e.list_len(w.written[-1]), 0, "nothing but lines given while connected is written")
            p.no_raise(lambda: p.m(f, "write", line))
            p.eq(p.e.list_len(w.written[-1]), 1, "a line goes to the latest connection, once")
            for old in w.written[:-1]:
                p.eq(p.e.list_len(old), 1, "and to no earlier one")
            if turn == 0:
                if p.e.choose(2):
                    p.no_raise(lambda: p.m(w.proto, "pauseProducing"))
                w.lost(f)
                w.attempt()
        p.decided(len(w.attempts) == 1, "the service makes no further attempt of its own", "syntactic")
        mine = [a for a, k in w.later]
        p.decided(len(mine) == (0 if cb is None else 1), "the connect callback is scheduled once, with the first connection", "syntactic", repr(mine))
        for a in mine:
            p.decided(a[1] is cb, "and is the one given", "identity")
        p.decided(retries(p, f), "there is no limit to the retries", "syntactic")
    p.paths(one)


def retries(p, f):
    """The factory sets none of what limits the retries."""
    attrs = p.e.obj(f).attrs
    return attrs.get("maxRetries") is None and attrs.get("continueTrying", 1) in (1, True)


@section("TCPRedirectService.stopService: no connection afterwards")
def stopping(p):
    """Whatever the state of its connection, stopping ends it: nothing is open, under way or waiting."""
    def one():
        w, f, s, host, port = redirect(p, p.recorder(p.trace()) if p.e.choose(2) else None)
        k = p.e.choose(len(STATES))
        name = STATES[k]
        if k:
            start(p, w, s, f, host, port)
            if k >= 2:
                w.connected(f)
            if k >= 3:
                if k == 3 and p.e.choose(2):
                    w.lost(f)
                    w.attempt()
                    w.failed(f)
                else:
                    w.lost(f)
            if k >= 4:
                w.attempt()
            if k >= 5:
                w.connected(f)
        p.no_raise(lambda: p.m(s, "stopService"), "stopping when %s raises nothing" % name)
        p.decided(w.state in ("disconnected", "closing"), "stopped when %s: no connection is left open and no attempt under way" % name, "syntactic", w.state)
        p.decided(not w.retry, "stopped when %s: no retry is waiting" % name, "syntactic")
        p.decided(not w.trying or k == 0, "stopped when %s: no retry will follow" % name, "syntactic")
        p.decided(len(w.attempts) == min(k, 1), "stopped when %s: no attempt is made" % name, "syntactic")
        p.decided(p.a(s, "running") == 0, "the service has stopped", "syntactic")
        if w.state == "closing":
            w.state = "disconnected"
            p.no_raise(lambda: p.m(f, "clientConnectionLost", w.connector, p.stub("reason")))
            p.decided(not w.retry, "when the connection it closed is lost it does not try again", "syntactic")
        p.no_raise(lambda: p.m(f, "write", p.str("line")), "a line after the stop raises nothing")
    p.paths(one)
