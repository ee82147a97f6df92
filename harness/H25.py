"""Random schedules of the blocking clients over recording sockets, and of the hashing client over recording clients."""
import socket
from hlib import check, same
from txstatsd.client import UdpStatsDClient, ConsistentHashingClient, InternalClient

RULE = "random connect / write / disconnect schedules with socket errors and unresolved hosts; 1-5 hashed clients; non-trivial with a write while connected"


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 10)):
            ops.append(rng.choice([["connect"], ["disconnect"], ["write", rng.choice(["a", "A", "b.c", "B.c", "d", "e.f.g", "e.F.g"]) + rng.choice([":1|c", ":2:3|g", ":", ":\xc3\xa9|g"])],
                                   ["write", "m%d:1|c" % rng.randint(0, 200)], ["error", rng.choice(["socket", "gai", "timeout"])]]))
        yield {"kind": rng.choice(["udp", "udp", "hash", "hash", "internal"]), "host": rng.choice(["127.0.0.1", "127.0.0.1", "named", "none", "noport"]), "n": rng.randint(1, 5), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return "connect" in k and "write" in k[k.index("connect"):]


class Sock(object):
    def __init__(self, log, errors):
        self.log, self.errors, self.closed = log, errors, False

    def setblocking(self, x):
        self.log.append(("blocking", x))

    def sendto(self, data, addr):
        if self.closed:
            raise socket.error("closed")
        if self.errors:
            raise self.errors.pop(0)
        self.log.append((data, addr))
        return len(data)

    def close(self):
        self.closed = True


class Fake(object):
    """Stands in for the module socket as the client sees it."""

    def __init__(self, log, errors):
        self.made = []
        self.log, self.errors = log, errors

    def socket(self, *a, **kw):
        same(a[:2], (socket.AF_INET, socket.SOCK_DGRAM), "kind of socket")
        s = Sock(self.log, self.errors)
        self.made.append(s)
        return s

    def getaddrinfo(self, host, port, *more):
        """The named host has an address, without a look outside."""
        if host == "stats.example":
            return [(socket.AF_INET, socket.SOCK_DGRAM, 17, "", ("127.0.0.1", port))]
        return socket.getaddrinfo(host, port, *more)

    def gethostbyname(self, host):
        return host == "stats.example" and "127.0.0.1" or socket.gethostbyname(host)

    def __getattr__(self, name):
        return getattr(socket, name)


class Node(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __str__(self):
        return self.name

    def connect(self):
        self.log.append(("connect", self.name))

    def disconnect(self):
        self.log.append(("disconnect", self.name))

    def write(self, data):
        self.log.append(("write", self.name, data))


def run(c):
    log, errors = [], []
    if c["kind"] == "internal":
        class P(object):
            def process(self, d):
                log.append(d)
        k = InternalClient(P())
        for op in c["ops"]:
            if op[0] == "write":
                k.write(op[1])
        same(log, [op[1] for op in c["ops"] if op[0] == "write"], "processed")
        return
    if c["kind"] == "hash":
        names = ["10.0.0.%d:8125" % i for i in range(c["n"])]
        k = ConsistentHashingClient([Node(n, log) for n in names])
        again = ConsistentHashingClient([Node(n, []) for n in reversed(names)])
        owner = {}
        for op in c["ops"]:
            del log[:]
            if op[0] == "write":
                k.write(op[1])
                same(len(log), 1, "number of clients written to")
                same((log[0][0], log[0][2]), ("write", op[1]), "written")
                key = op[1].split(":")[0]
                same(owner.setdefault(key, log[0][1]), log[0][1], "client for %r" % key)
                same(str(again.ring.get_node(key)), log[0][1], "client for %r with the clients listed in another order" % key)
            elif op[0] in ("connect", "disconnect"):
                getattr(k, op[0])()
                same(sorted(log), sorted((op[0], n) for n in names), op[0])
        return
    import txstatsd.client as mod
    fake = Fake(log, errors)
    real = mod.socket
    mod.socket = fake
    try:
        host, port = {"127.0.0.1": ("127.0.0.1", 8125), "named": ("stats.example", 8125), "none": (None, 8125), "noport": ("127.0.0.1", None)}[c["host"]]
        k = UdpStatsDClient(host, port)
        up = False
        for op in c["ops"]:
            del log[:]
            if op[0] == "connect":
                k.connect()
                up = True
            elif op[0] == "disconnect":
                k.disconnect()
                up = False
            elif op[0] == "error":
                errors.append({"socket": socket.error("x"), "gai": socket.gaierror("y"), "timeout": socket.timeout("z")}[op[1]])
            else:
                failing = len(errors)
                k.write(op[1])
                if up and c["host"] in ("127.0.0.1", "named"):
                    if failing:
                        same(len(errors), failing - 1, "attempts to send")
                        same(log, [], "sent")
                    else:
                        same(log, [(op[1], ("127.0.0.1", 8125))], "sent")
                else:
                    same(log, [], "sent while not connected")
                    same(len(errors), failing, "attempts to send while not connected")
    finally:
        mod.socket = real
