"""TCP redirects: every method from every state (paused or not, connected or not), against the exact bytes written."""
import z3
from pyded.core import Sym, zi
from pyded.proof import section
from contracts.common import *

R = "txstatsd.server.router:"
PROTO, FACT = R + "TCPRedirectProtocol", R + "TCPRedirectClientFactory"
FUNCTIONS = ["TCPRedirectProtocol.__init__/connectionMade/write/pauseProducing/stopProducing/resumeProducing",
             "TCPRedirectClientFactory.__init__/buildProtocol/write"]
TRUSTED = ["twisted's transport sends what write() is given, in order; ReconnectingClientFactory.resetDelay and log.msg have no effect here"]
ASSUMPTIONS = ["the transport asks to resume only after it asked for a pause (twisted's contract for push producers)"]


class World(object):
    def __init__(self, p):
        self.out, self.reg = p.trace(), p.trace()
        self.transport = p.stub("transport", {"write": p.recorder(self.out), "registerProducer": p.recorder(self.reg)})


def connected(p):
    """A connected protocol in any state."""
    w = World(p)
    o = p.new(PROTO)
    p.set(o, "transport", w.transport)
    dropped = p.int("dropped")
    p.assume(dropped.t >= 0)
    paused = bool(p.e.choose(2))
    if paused:
        p.no_raise(lambda: p.m(o, "pauseProducing"))
    p.set(o, "dropped", dropped if paused else 0)
    return w, o, paused, dropped if paused else 0


def frame(p, line):
    """line, ended by exactly one CRLF."""
    t = zs(line)
    if p.e.branch(z3.SuffixOf(z3.StringVal("\r\n"), t)):
        return line
    if p.e.branch(z3.SuffixOf(z3.StringVal("\r"), t)):
        return cat(p, line, "\n")
    return cat(p, line, "\r\n")


def after_write(p, w, o, paused, dropped, line, what):
    if paused:
        p.eq(w.out, p.list(), what + ": nothing is written while paused")
        p.prove(zi(p.a(o, "dropped")) == zi(dropped) + 1, what + ": the line is counted as dropped")
    else:
        n = p.e.list_len(w.out)
        p.eq(n, 1, what + ": one write")
        got = p.e.list_get(w.out, 0)
        p.eq(got, (frame(p, line),), what + ": the line and exactly one CRLF")
        p.eq(p.a(o, "dropped"), dropped, what + ": nothing is counted as dropped")
    p.eq(p.a(o, "paused"), paused, what + ": the state stays")


@section("TCPRedirectProtocol.__init__ and connectionMade")
def made(p):
    def one():
        w = World(p)
        o = p.no_raise(lambda: p.new(PROTO))
        p.set(o, "transport", w.transport)
        p.no_raise(lambda: p.m(o, "connectionMade"))
        p.eq(p.e.list_len(w.reg), 1, "it registers once")
        args = p.e.list_get(w.reg, 0)
        p.prove(args[0] == o, "itself")
        p.prove(p.e.truth(args[1]), "as a push producer")
        p.eq(p.a(o, "dropped"), 0, "nothing is dropped yet")
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "write", line))
        after_write(p, w, o, False, 0, line, "first line")
    p.paths(one)


@section("TCPRedirectProtocol.write")
def write(p):
    def one():
        w, o, paused, dropped = connected(p)
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "write", line))
        after_write(p, w, o, paused, dropped, line, "write")
    p.paths(one)


@section("TCPRedirectProtocol.pauseProducing and stopProducing")
def pause(p):
    def one():
        w, o, paused, dropped = connected(p)
        p.no_raise(lambda: p.m(o, ["pauseProducing", "stopProducing"][p.e.choose(2)]))
        p.eq(p.a(o, "dropped"), dropped, "the count goes on")
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "write", line))
        after_write(p, w, o, True, dropped, line, "write after a pause")
    p.paths(one)


@section("TCPRedirectProtocol.resumeProducing")
def resume(p):
    def one():
        w, o, paused, dropped = connected(p)
        if not paused:
            p.no_raise(lambda: p.m(o, "pauseProducing"))
        p.no_raise(lambda: p.m(o, "resumeProducing"))
        p.eq(p.a(o, "dropped"), 0, "the count starts at zero")
        p.eq(w.out, p.list(), "resuming writes nothing of its own")
        line = p.str("line")
        p.no_raise(lambda: p.m(o, "write", line))
        after_write(p, w, o, False, 0, line, "write after resuming")
        p.no_raise(lambda: p.m(o, "pauseProducing"))
        l2 = p.str("line2")
        p.no_raise(lambda: p.m(o, "write", l2))
        p.eq(p.a(o, "dropped"), 1, "and is counted anew in the next pause")
    p.paths(one)


def factory(p):
    later, called = p.trace(), p.trace()
    cb = [lambda: None, lambda: p.recorder(called)][p.e.choose(2)]()
    reactor = p.stub("reactor", {"callLater": p.recorder(later)})
    f = p.no_raise(lambda: p.new(FACT, cb, reactor=reactor))
    p.set(f, "resetDelay", p.recorder(p.trace()))
    return f, cb, later, called


@section("TCPRedirectClientFactory.write")
def fwrite(p):
    def one():
        f, cb, later, called = factory(p)
        line = p.str("line")
        p.no_raise(lambda: p.m(f, "write", line), "before a connection exists a line is discarded without error")
        w = World(p)
        for n in range(p.e.choose(2) + 1):      # also after a reconnection
            w, o = World(p), p.no_raise(lambda: p.m(f, "buildProtocol", None))
            p.set(o, "transport", w.transport)
        p.no_raise(lambda: p.m(o, "connectionMade"))
        p.eq(p.e.list_len(w.reg), 1, "the protocol registers as producer")
        dropped, paused = p.int("dropped"), bool(p.e.choose(2))
        if paused:
            p.no_raise(lambda: p.m(o, "pauseProducing"))
            p.set(o, "dropped", dropped)
        p.no_raise(lambda: p.m(f, "write", line))
        after_write(p, w, o, paused, dropped if paused else 0, line, "write through the factory")
        p.eq(p.e.list_len(later), 0 if cb is None else 1, "the connect callback is scheduled once")
        if cb is not None:
            p.prove(p.e.list_get(later, 0)[1] is cb or p.e.list_get(later, 0)[1] == cb, "and is the one given")
    p.paths(one)
