"""The asynchronous client: an arbitrary queue (any length up to the limit), every event from every state.
Ghost state: the trace of what was handed to the reactor for sending; with the queue it is all that was accepted, in order."""
import z3
from pyded.core import HList, Sym, zi
from pyded.proof import section
from pyded.seqs import Invariant
from contracts.common import *

P_ = "txstatsd.protocol:"
CLIENT, QUEUE, GATE, PROTO = P_ + "TwistedStatsDClient", P_ + "DataQueue", P_ + "TransportGateway", P_ + "StatsDClientProtocol"
FUNCTIONS = ["DataQueue.__init__/write/flush", "TransportGateway.__init__/write/_write", "TwistedStatsDClient.__init__/create/connect/disconnect/write/host_resolved/_flush_items",
             "StatsDClientProtocol.startProtocol/stopProtocol"]
TRUSTED = ["reactor.callFromThread(f, ...) calls f once, in the order of the calls, from the reactor; a Deferred calls its callback once",
           "transport.write returns the number of bytes sent, or None, or raises OverflowError, TypeError or a socket error"]
ASSUMPTIONS = ["callbacks given by the caller do not raise", "events arrive from one thread (Twisted's reactor)"]
ERRORS = ["OverflowError", "TypeError", "socket.error", "socket.gaierror", "socket.timeout"]


def queue_base(p, n):
    f = p.base("queued_data", "str", n=n)
    g = p.base("queued_callback", "obj", n=n)
    return p.base("queued", None, n=n, mk=lambda e, i: (e.elem(f, i), e.elem(g, i)))


def some_queue(p):
    limit, n = p.int("limit"), p.int("n")
    p.assume(z3.And(n.t >= 0, n.t <= limit.t))
    q = p.no_raise(lambda: p.new(QUEUE, limit))
    b = queue_base(p, n.t)
    p.set(q, "_queue", p.listof(b))
    return q, b, n, limit


@section("DataQueue.write")
def q_write(p):
    def one():
        q, b, n, limit = some_queue(p)
        data, cb = p.str("data"), p.obj_("callback")
        p.no_raise(lambda: p.m(q, "write", data, cb))
        want = p.listof(b)
        if p.e.branch(n.t < limit.t):
            p.e.list_append(want, (data, cb))
            p.eq(p.a(q, "_queue"), want, "the message is queued last, with its callback")
        else:
            p.eq(p.a(q, "_queue"), want, "only what is written while the queue is full is dropped")
    p.paths(one)


@section("DataQueue.__init__ and flush")
def q_flush(p):
    def one():
        q, b, n, limit = some_queue(p)
        r = p.no_raise(lambda: p.m(q, "flush"))
        p.eq(r, p.listof(b), "flush returns every queued message in the order written")
        p.eq(p.no_raise(lambda: p.m(q, "flush")), p.list(), "and each only once")
        data, cb = p.str("data"), p.obj_("callback")
        q2 = p.no_raise(lambda: p.new(QUEUE))
        p.no_raise(lambda: p.m(q2, "write", data, cb))
        p.eq(p.m(q2, "flush"), p.list((data, cb)), "a new queue is empty, and takes messages")
        p.no_raise(lambda: p.m(q, "write", data, cb))
        if p.e.branch(limit.t > 0):
            p.eq(p.m(q, "flush"), p.list((data, cb)), "what is written after a flush is queued anew")
        p.eq(r, p.listof(b), "and does not disturb what was flushed")
    p.paths(one)


class World(object):
    def __init__(self, p):
        self.calls, self.sent, self.results = p.trace(), p.trace(), p.trace()
        self.fail = False

        def write(e, a, k):
            e.list_append(self.sent, tuple(a))
            if e.choose(2):
                self.fail = True
                e.throw(ERRORS[e.choose(len(ERRORS))])
            self.bytes = None if e.choose(2) else e.fresh("int", "bytes")
            return self.bytes
        self.transport = p.stub("transport", {"write": Builtin("transport.write", write)})
        self.resolving = p.trace()
        d = a_deferred(p, addCallbacks=p.recorder(self.resolving), addCallback=p.recorder(self.resolving))
        self.asked = p.trace()
        self.reactor = p.stub("reactor", {"callFromThread": p.recorder(self.calls), "resolve": p.recorder(self.asked, ret=d)})


@section("TransportGateway.write")
def g_write(p):
    def one():
        w = World(p)
        host, port, data = p.str("host"), p.int("port"), p.str("data")
        g = p.no_raise(lambda: p.new(GATE, w.transport, w.reactor, host, port))
        cb = p.recorder(w.results) if p.e.choose(2) else None
        p.no_raise(lambda: p.m(g, "write", data, cb))
        p.eq(w.sent, p.list(), "nothing is sent from the caller's thread")
        p.eq(p.e.list_len(w.calls), 1, "sending is left to the reactor, once")
        call = p.e.list_get(w.calls, 0)
        p.no_raise(lambda: p.e.call(call[0], list(call[1:]), {}), "no network error is raised")
        p.eq(w.sent, p.list((data, (host, port))), "the message is sent once, unchanged, to the resolved host and port")
        want = p.list() if cb is None else p.list((None,)) if w.fail else p.list((w.bytes,))
        p.eq(w.results, want, "the callback is called once, with what the transport returned, or None after an error")
    p.paths(one)


class Requeue(Invariant):
    """Items flushed while nothing can be sent are put back: after k of them the queue holds the first k, and nothing was handed over."""

    def __init__(self, p, base):
        Invariant.__init__(self)
        self.p, self.src = p, base

    def discover(self, e, s, cb):
        t = sorted({a for a, f in e.touched(s, cb) if isinstance(e.heap[a], HList)}, key=str)
        if len(t) != 1:
            raise Unsupported("the loop over the queue changes %d lists" % len(t))
        self.addr = t[0]

    def havoc(self, e, k):
        e.heap[self.addr].segs = e.norm_segs([e.sub_base(self.src, 0, zi(k))])

    def frame(self, e):
        return {(self.addr, None)}

    def check(self, e, k):
        want = e.alloc(HList(e.norm_segs([e.sub_base(self.src, 0, zi(k))])))
        return [("the first k messages are queued again, in order", e.eq(Ref(self.addr), want))]


def client(p, w, cb=None, dcb=None, queued=True):
    """A client in any state, with any messages queued if it cannot send yet."""
    p.external("twisted.internet.abstract.isIPAddress", lambda e, a, k: False)
    c = p.no_raise(lambda: p.new(CLIENT, p.str("name"), p.int("port"), connect_callback=cb, disconnect_callback=dcb, reactor=w.reactor))
    p.eq(w.calls, p.list(), "creating it sends nothing")
    return c


def fill(p, c, ready):
    """Any number of messages waits in the queue."""
    q = p.a(c, "data_queue")
    limit, n = p.int("limit"), p.int("n")
    p.assume(z3.And(n.t >= 0, n.t <= limit.t))
    p.set(q, "_limit", limit)
    b = queue_base(p, n.t)
    p.set(q, "_queue", p.listof(b))
    p.e.invariants.append(lambda e, seg, base, src: Requeue(p, b) if base.root is b and not ready else None)
    return b, n, limit


def handed(p, w, c, b, extra, ip):
    """Everything queued was handed over in order, then extra."""
    got = p.trace()
    n = p.e.list_len(w.calls)
    p.prove(zi(n) == zi(p.e.segs_len([b])) + len(extra), "each message is handed over exactly once")
    want = p.trace()
    p.e.iterate(p.listof(b), lambda v: p.e.list_append(want, v))
    for x in extra:
        p.e.list_append(want, x)
    p.e.iterate(w.calls, lambda v: p.e.list_append(got, (v[1], v[2])))
    p.eq(got, want, "in the order written, with its callback")
    p.eq(p.no_raise(lambda: p.m(p.a(c, "data_queue"), "flush")), p.list(), "and is queued no more")


def kept(p, w, c, b, extra):
    p.eq(w.calls, p.list(), "nothing is handed over while the host or the transport is missing")
    want = p.listof(b)
    for x in extra:
        p.e.list_append(want, x)
    p.eq(p.a(p.a(c, "data_queue"), "_queue"), want, "everything stays queued in order")


@section("TwistedStatsDClient.host_resolved")
def resolved(p):
    def one():
        w = World(p)
        mine = (p.str("own"), p.obj_("own_callback"))
        how = p.e.choose(3)
        called = []

        def on_connect(e, a, k):
            called.append(1)
            if how == 2:
                e.call(e.getattr_(c, "write"), list(mine), {})
        c = client(p, w, None if how == 0 else Builtin("connect_callback", on_connect))
        up = bool(p.e.choose(2))
        if up:
            p.no_raise(lambda: p.m(c, "connect", w.transport))
        b, n, limit = fill(p, c, up)
        p.assume(n.t < limit.t)
        ip = p.str("ip")
        p.no_raise(lambda: p.m(c, "host_resolved", ip))
        p.eq(len(called), 1 if how else 0, "the connect callback is called once")
        extra = [mine] if how == 2 else []
        if up:
            handed(p, w, c, b, extra, ip)
            call = p.e.list_get(w.calls, 0) if p.e.branch(zi(p.e.list_len(w.calls)) > 0) else None
            if call is not None:
                p.no_raise(lambda: p.e.call(call[0], [call[1], None], {}))
                p.eq(w.sent, p.list((call[1], (ip, p.a(c, "port")))), "to the resolved host and port, through the transport")
        else:
            kept(p, w, c, b, extra)
    p.paths(one)


@section("TwistedStatsDClient.connect")
def connect(p):
    def one():
        w = World(p)
        c = client(p, w)
        ready = bool(p.e.choose(2))
        old = p.stub("earlier transport", {})
        if p.e.choose(2):
            p.no_raise(lambda: p.m(c, "connect", old))
            if p.e.choose(2):
                p.no_raise(lambda: p.m(c, "disconnect"))
        ip = p.str("ip")
        if ready:
            p.no_raise(lambda: p.m(c, "host_resolved", ip))
        p.eq(w.calls, p.list(), "nothing was written, nothing is sent")
        b, n, limit = fill(p, c, ready)
        if p.e.choose(2):
            p.no_raise(lambda: p.m(c, "connect", w.transport))
        else:
            proto = p.no_raise(lambda: p.new(PROTO, c))
            p.set(proto, "transport", w.transport)
            p.no_raise(lambda: p.m(proto, "startProtocol"))
        if ready:
            handed(p, w, c, b, [], ip)
            call = p.e.list_get(w.calls, 0) if p.e.branch(zi(p.e.list_len(w.calls)) > 0) else None
            if call is not None:
                p.no_raise(lambda: p.e.call(call[0], [call[1], None], {}))
                p.eq(w.sent, p.list((call[1], (ip, p.a(c, "port")))), "to the resolved host and port, through the new transport")
        else:
            kept(p, w, c, b, [])
    p.paths(one)


@section("TwistedStatsDClient.write and disconnect")
def write(p):
    def one():
        w = World(p)
        gone = p.trace()
        c = client(p, w, None, p.recorder(gone) if p.e.choose(2) else None)
        transport, ready = bool(p.e.choose(2)), bool(p.e.choose(2))
        order = bool(p.e.choose(2))
        ip = p.str("ip")
        if ready and order:
            p.no_raise(lambda: p.m(c, "host_resolved", ip))
        if transport:
            p.no_raise(lambda: p.m(c, "connect", w.transport))
            if p.e.choose(2):
                if p.e.choose(2):
                    p.no_raise(lambda: p.m(c, "disconnect"))
                else:
                    proto = p.no_raise(lambda: p.new(PROTO, c))
                    p.no_raise(lambda: p.m(proto, "stopProtocol"))
                transport = False
        if ready and not order:
            p.no_raise(lambda: p.m(c, "host_resolved", ip))
        p.eq(w.calls, p.list(), "nothing was written, nothing is sent")
        data, cb = p.str("data"), [lambda: None, lambda: p.obj_("callback")][p.e.choose(2)]()
        up = ready and transport
        if not up:
            b, n, limit = fill(p, c, up)
        p.no_raise(lambda: p.m(c, "write", data, cb) if cb is not None else p.m(c, "write", data))
        if up:
            p.eq(p.e.list_len(w.calls), 1, "with host and transport a message is handed over at once")
            call = p.e.list_get(w.calls, 0)
            p.eq((call[1], call[2]), (data, cb), "unchanged, with its callback")
            p.no_raise(lambda: p.e.call(call[0], [call[1], None], {}))
            p.eq(w.sent, p.list((data, (ip, p.a(c, "port")))), "to the resolved host and port")
            p.eq(p.m(p.a(c, "data_queue"), "flush"), p.list(), "and is not queued")
        elif p.e.branch(n.t < limit.t):
            kept(p, w, c, b, [(data, cb)])
        else:
            kept(p, w, c, b, [])
    p.paths(one)


@section("TwistedStatsDClient.__init__ and create")
def create(p):
    def one():
        w = World(p)
        isip = bool(p.e.choose(2))
        p.external("twisted.internet.abstract.isIPAddress", lambda e, a, k: isip)
        host, port = p.str("host"), p.int("port")
        resolve = bool(p.e.choose(2))
        errback = p.recorder(p.trace()) if p.e.choose(2) else None
        called = p.trace()
        cb = p.recorder(called) if p.e.choose(2) else None
        if resolve:
            c = p.no_raise(lambda: p.m(p.get(CLIENT), "create", host, port, connect_callback=cb, resolver_errback=errback, reactor=w.reactor))
            p.eq(w.asked, p.list((host,)), "the host given is resolved, once")
            p.eq(p.e.list_len(w.resolving), 1, "the client waits for the address")
            then = p.e.list_get(w.resolving, 0)
            p.prove(len(then) == 2 and (errback is None or then[1] is errback), "failures to resolve go to the errback")
        else:
            c = p.no_raise(lambda: p.new(CLIENT, host, port, connect_callback=cb, reactor=w.reactor))
        data = p.str("data")
        if not isip:
            p.no_raise(lambda: p.m(c, "write", data))
        p.no_raise(lambda: p.m(c, "connect", w.transport))
        p.eq(w.calls, p.list(), "nothing is sent before the address is known")
        if isip:
            p.no_raise(lambda: p.m(c, "write", data))
            ip = host
        elif resolve:
            ip = p.str("ip")
            p.no_raise(lambda: p.e.call(then[0], [ip], {}))
            p.eq(called, p.list(()) if cb is not None else p.list(), "the connect callback is called once")
        else:
            return
        p.eq(p.e.list_len(w.calls), 1, "what was written is sent then")
        call = p.e.list_get(w.calls, 0)
        p.no_raise(lambda: p.e.call(call[0], list(call[1:]), {}))
        p.eq(w.sent, p.list((data, (ip, port))), "to the resolved address and the port given")
    p.paths(one)
