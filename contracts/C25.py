"""The blocking clients: any address, any state, any outcome of every socket call; any number of hashed clients."""
import z3
from pyded.core import Sym, zi
from pyded.proof import PyExc, section
from contracts.common import *

C = "txstatsd.client:"
UDP, HASH, INT = C + "UdpStatsDClient", C + "ConsistentHashingClient", C + "InternalClient"
RING = "txstatsd.hashing:ConsistentHashRing"
FUNCTIONS = ["UdpStatsDClient.__init__/connect/disconnect/write", "ConsistentHashingClient.__init__/write/connect/disconnect", "InternalClient.write"]
TRUSTED = ["socket.sendto(data, addr) sends data in one datagram or raises socket.error", "str(line) is the line, for byte strings"]
ASSUMPTIONS = ["ConsistentHashRing.get_node by its contract: one of the ring's nodes, the same one for the same key (decided by C12)",
               "lines are byte strings that contain a colon (every line that Metric.send makes does, C13)"]
ERRORS = ["socket.error", "socket.gaierror", "socket.timeout"]


class Net(object):
    """The module socket: every call may fail; what is sent is recorded per socket."""

    def __init__(self, p):
        self.sent, self.made, self.closed = p.trace(), [], p.trace()
        self.failing = False
        self.addr = (p.str("addr"), p.int("port"))

        def make(e, a, k):
            e.prove(len(a) >= 2 and a[0] == 2 and a[1] == 2, p.section + ": the socket is a UDP one")
            n = len(self.made)
            s = p.stub("socket%d" % n, {"setblocking": Builtin("setblocking", self.blocking(n)), "close": p.recorder(self.closed, n),
                                        "sendto": Builtin("sendto", self.sendto(n))})
            self.made.append({"blocking": True})
            return s

        def info(e, a, k):
            e.prove(e.eq(a[0], self.host), p.section + ": the host given is resolved")
            e.prove(e.eq(a[1], self.port), p.section + ": with the port given")
            n = e.choose(len(ERRORS) + 2)
            if n < len(ERRORS):
                e.throw(ERRORS[n])
            return p.list() if n == len(ERRORS) else p.list((2, 2, 17, "", self.addr), (2, 2, 17, "", (p.str("other"), p.int("other"))))
        p.external("socket.socket", make)
        p.external("socket.getaddrinfo", info)

    def blocking(self, n):
        def f(e, a, k):
            self.made[n]["blocking"] = e.branch(e.truth(a[0]))
        return f

    def sendto(self, n):
        def f(e, a, k):
            self.failing = bool(e.choose(2))
            if self.failing:
                self.tried = True
                e.throw(ERRORS[e.choose(len(ERRORS))])
            e.list_append(self.sent, (n,) + tuple(a))
            return e.fresh("int", "sent")
        return f


@section("UdpStatsDClient")
def udp(p):
    def one():
        net = Net(p)
        k = p.e.choose(4)
        net.host = None if k in (1, 3) else p.str("host")
        net.port = None if k in (2, 3) else p.int("port")
        c = None
        try:
            c = p.new(UDP, net.host, net.port)
        except PyExc as x:
            p.prove(k == 0 and x.cls.name == "ValueError", "only an address that cannot be resolved is refused, with ValueError")
            return
        data = p.str("data")
        state = p.e.choose(6)
        up, index = False, None
        if state:       # an arbitrary history of connecting and disconnecting
            for op in [["disconnect"], ["connect"], ["connect", "disconnect"], ["disconnect", "disconnect"],
                       ["connect", "disconnect", "connect"]][state - 1]:
                p.no_raise(lambda: p.m(c, op))
                up = op == "connect"
        p.eq(net.sent, p.list(), "connecting and disconnecting send nothing")
        index = len(net.made) - 1
        for n in range(2):
            if up:
                p.prove(net.made[-1]["blocking"] is False, "sending never blocks")
            before = p.list(*[x for s in p.e.obj(net.sent).segs for x in s])
            net.failing, net.tried = False, False
            p.no_raise(lambda: p.m(c, "write", data), "writing raises no network error")
            if not up or k:
                p.eq(net.sent, before, "nothing is sent while not connected or without an address")
                p.prove(not net.tried, "nor tried")
            elif not net.failing:
                p.e.list_append(before, (index, data, net.addr))
                p.eq(net.sent, before, "the data, unchanged, in one datagram to the resolved address")
            else:
                p.eq(net.sent, before, "a failed write sends nothing else")
    p.paths(one)


def clients(p, log):
    """Any number of clients."""
    n = p.int("clients")
    p.assume(n.t >= 1)

    def mk(e, i):
        return p.stub("client", {"index": Sym("int", zi(i)),
                                 "connect": Builtin("connect", lambda e, a, k: e.list_append(log, ("connect", Sym("int", zi(i))))),
                                 "disconnect": Builtin("disconnect", lambda e, a, k: e.list_append(log, ("disconnect", Sym("int", zi(i))))),
                                 "write": Builtin("write", lambda e, a, k: e.list_append(log, ("write", Sym("int", zi(i))) + tuple(a)))})
    b = p.base("clients", None, n=n.t, mk=mk)
    return b, n


@section("ConsistentHashingClient.connect and disconnect")
def connect(p):
    def one():
        log = p.trace()
        b, n = clients(p, log)
        given = p.listof(b)
        ring = p.stub("ring", {"nodes": p.listof(b, "set")})
        p.e.contracts[RING] = lambda e, cls, a, k: ring
        c = p.no_raise(lambda: p.new(HASH, given))
        p.eq(log, p.list(), "creating it connects nothing")
        for op in ("connect", "disconnect"):
            start = p.e.list_len(log)
            p.no_raise(lambda: p.m(c, op))
            want = p.trace()
            p.e.iterate(p.listof(b), lambda v: p.e.list_append(want, (op, p.a(v, "index"))))
            p.eq(log, want, op + "s every client exactly once")
            p.e.obj(log).segs[:] = []
    p.paths(one)


@section("ConsistentHashingClient.write")
def write(p):
    def one():
        log, asked = p.trace(), []
        b, n = clients(p, log)
        owner = z3.Function("owner", z3.StringSort(), z3.IntSort())

        def get(e, a, k):
            x = z3.simplify(owner(zs(a[0])))
            e.assume(z3.And(x >= 0, x < n.t))
            asked.append(a[0])
            return e.list_get(p.listof(b), Sym("int", x))
        ring = p.stub("ring", {"nodes": p.listof(b, "set"), "get_node": Builtin("get_node", get)})
        made = []

        def mk(e, cls, a, k):
            made.append(a[0])
            return ring
        p.e.contracts[RING] = mk
        given = p.listof(b)
        c = p.no_raise(lambda: p.new(HASH, given))
        p.prove(len(made) == 1 and made[0] == given, "the ring is made of the clients given")
        name, rest = p.str("name"), p.str("rest")
        p.e.strspec[name.t.sexpr()] = {"without": ":"}
        line = cat(p, name, ":", rest)
        p.no_raise(lambda: p.m(c, "write", line))
        p.prove(len(asked) >= 1, "the ring decides")
        p.eq(log, p.list(("write", Sym("int", owner(name.t)), line)), "the line goes, unchanged, to exactly one client, which the name alone decides")
    p.paths(one)


@section("InternalClient.write")
def internal(p):
    def one():
        log = p.trace()
        c = p.no_raise(lambda: p.new(INT, p.stub("processor", {"process": p.recorder(log)})))
        data = p.str("data")
        p.no_raise(lambda: p.m(c, "write", data))
        p.eq(log, p.list((data,)), "the line is handed to the processor once, unchanged")
    p.paths(one)
