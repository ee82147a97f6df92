"""Listeners: any datagram or line, any monitor configuration."""
import z3
from pyded.core import Sym, zi
from pyded.proof import section
from contracts.common import *

S = "txstatsd.server.protocol:"
FUNCTIONS = ["StatsDServerProtocol.__init__/datagramReceived", "StatsDTCPServerProtocol.__init__/lineReceived", "StatsDTCPServerFactory.__init__/buildProtocol"]
TRUSTED = ["twisted's LineReceiver cuts the stream into lines (checked against the real one by the bounded search only)",
           "reactor.callLater(0, f, x) calls f(x) once, from the reactor"]
ASSUMPTIONS = ["a monitor message and response are both configured, or neither is (an unset message equals no datagram)"]


class World(object):
    def __init__(self, p):
        self.out, self.later, self.done = p.trace(), p.trace(), p.trace()
        self.reactor = p.stub("reactor", {"callLater": p.recorder(self.later)})
        self.transport = p.stub("transport", {"write": p.recorder(self.out), "reactor": self.reactor})
        self.processor = p.stub("processor", {"process": p.recorder(self.done)})
        self.monitor = [lambda: p.str("monitor"), lambda: None][p.e.choose(2)]()
        self.response = None if self.monitor is None else p.str("response")

    def make(self, p, cls):
        kw = {}
        if self.monitor is not None or p.e.choose(2):
            kw = {"monitor_message": self.monitor, "monitor_response": self.response}
        return p.no_raise(lambda: p.new(cls, self.processor, **kw))

    def check(self, p, data, answer):
        p.eq(self.done, p.list(), "nothing is processed within the receiving call")
        if self.monitor is not None and p.e.branch(p.e.eq(data, self.monitor)):
            p.eq(self.out, p.list(answer(self.response)), "the monitor message is answered with the monitor response")
            p.eq(self.later, p.list(), "and is not processed")
            return
        p.eq(self.out, p.list(), "anything else is not answered")
        n = p.e.list_len(self.later)
        p.eq(n, 1, "and is scheduled once")
        if n == 1:
            call = p.e.list_get(self.later, 0)
            p.eq(call[0], 0, "for the next turn of the reactor")
            p.no_raise(lambda: p.e.call(call[1], list(call[2:]), {}))
            p.eq(self.done, p.list((data,)), "which hands it, unchanged, to the processor")
            p.eq(self.out, p.list(), "and answers nothing")


@section("StatsDServerProtocol.datagramReceived")
def udp(p):
    def one():
        w = World(p)
        o = w.make(p, S + "StatsDServerProtocol")
        p.set(o, "transport", w.transport)
        data, host, port = p.str("data"), p.str("host"), p.int("port")
        p.no_raise(lambda: p.m(o, "datagramReceived", data, (host, port)))
        w.check(p, data, lambda r: (r, (host, port)))
    p.paths(one)


@section("StatsDTCPServerProtocol.lineReceived")
def tcp(p):
    def one():
        w = World(p)
        o = w.make(p, S + "StatsDTCPServerProtocol")
        p.set(o, "transport", w.transport)
        data = p.str("line")
        p.no_raise(lambda: p.m(o, "lineReceived", data))
        w.check(p, data, lambda r: (r,))
    p.paths(one)


@section("StatsDTCPServerFactory.buildProtocol")
def factory(p):
    def one():
        w = World(p)
        f = w.make(p, S + "StatsDTCPServerFactory")
        other = p.trace()
        elsewhere = p.stub("other transport", {"write": p.recorder(other), "reactor": w.reactor})
        n = p.e.choose(3)       # alone, after another connection, or with another one opened since
        made = []
        for k in range(1 + (n > 0)):
            o = p.no_raise(lambda: p.m(f, "buildProtocol", p.obj_("addr")))
            p.set(o, "transport", w.transport if n == 0 or k == n - 1 else elsewhere)
            made.append(o)
        if n:
            p.prove(made[0] != made[1], "every connection has a protocol of its own, which holds what has come of its current line")
        data = p.str("line")
        p.no_raise(lambda: p.m(made[n - 1 if n else 0], "lineReceived", data))
        w.check(p, data, lambda r: (r,))
        p.eq(other, p.list(), "nothing goes to another connection")
    p.paths(one)
