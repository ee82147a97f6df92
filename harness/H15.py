"""Random schedules of writes, resolution, connection, disconnection and reactor turns against the list of written messages."""
import socket
from hlib import check, same
from txstatsd.protocol import TwistedStatsDClient, StatsDClientProtocol
from twisted.internet import defer

RULE = "random interleavings of write / resolve / (re)connect / disconnect / reactor turns, with and without callbacks and network errors, IP and named hosts, bursts above the queue's limit; non-trivial with a write before the connection"


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        ops = []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.45:
                ops.append(["write", rng.random() < 0.6])
            elif r < 0.55:
                ops.append(["resolve"])
            elif r < 0.68:
                ops.append(["connect"])
            elif r < 0.74:
                ops.append(["disconnect"])
            elif r < 0.9:
                ops.append(["turn"])
            else:
                ops.append(["error", rng.choice(["socket", "gai", "overflow", "type", "none sent", "refused"])])
        if k % 40 == 0:
            ops.insert(rng.randint(0, len(ops)), ["burst", rng.choice([999, 1000, 1001, 1100])])
        yield {"ip": rng.random() < 0.3, "cb": rng.choice(["", "", "write"]), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return "write" in k and "connect" in k and k.index("write") < k.index("connect")


class Reactor(object):
    def __init__(self):
        self.calls = []
        self.d = defer.Deferred()

    def callFromThread(self, f, *a, **kw):
        self.calls.append((f, a, kw))

    def resolve(self, host):
        self.host = host
        return self.d

    def turn(self):
        calls, self.calls = self.calls, []
        for f, a, kw in calls:
            f(*a, **kw)


ERRORS = {"socket": socket.error("x"), "gai": socket.gaierror("y"), "overflow": OverflowError(), "type": TypeError()}


class Transport(object):
    def __init__(self, log, errors, state):
        self.log, self.errors, self.state = log, errors, state
        state["current"] = self

    def write(self, data, addr=None):
        check(self.state["current"] is self, "%r handed to an earlier transport", data)
        self.log.append((data, addr))
        if self.errors:
            e = self.errors.pop(0)
            if e not in ERRORS:
                return 0 if e == "none sent" else None      # (None: twisted's transport for a refused connection)
            raise ERRORS[e]
        return len(data)


def run(c):
    reactor = Reactor()
    ip = "10.9.8.7"
    sent, results, errors = [], [], []
    state = {"resolved": False, "transport": False, "n": 0}
    written = []
    queued = [0]
    dropped = set()

    def write(cb):
        n = state["n"]
        state["n"] += 1
        data = "m%d:1|c" % n
        if state["resolved"] and state["transport"]:
            pass
        elif queued[0] >= 1000:
            dropped.add(n)
        else:
            queued[0] += 1
        if n not in dropped:
            written.append((data, cb))
        if cb:
            client.write(data, lambda r: results.append((n, r)))
        else:
            client.write(data)

    def connected():
        if c["cb"] == "write":
            write(False)
    if c["ip"]:
        client = TwistedStatsDClient.create(ip, 8125, reactor=reactor)
        state["resolved"] = True
    else:
        # what the connect callback sees: the host is resolved
        def on_connect():
            state["resolved"] = True
            connected()
        client = TwistedStatsDClient.create("some.host", 8125, connect_callback=on_connect, reactor=reactor)
        same(reactor.host, "some.host", "host to resolve")
    protocol = StatsDClientProtocol(client)
    nerr = 0
    for op in c["ops"]:
        if op[0] == "write":
            write(op[1])
        elif op[0] == "burst":
            for _ in range(op[1]):
                write(False)
        elif op[0] == "resolve":
            if not c["ip"] and not reactor.d.called:
                reactor.d.callback(ip)
                state["resolved"] = True
                if state["transport"]:
                    queued[0] = 0
        elif op[0] == "connect":
            protocol.transport = Transport(sent, errors, state)
            protocol.startProtocol()
            state["transport"] = True
            if state["resolved"]:
                queued[0] = 0
        elif op[0] == "disconnect":
            if state["transport"]:
                protocol.stopProtocol()
                state["transport"] = False
        elif op[0] == "error":
            errors.append(op[1])
        elif op[0] == "turn":
            reactor.turn()
        check(len(sent) <= len(written), "more was sent than written")
        same([d for d, a in sent], [d for d, cb in written[:len(sent)]], "handed to the transport")
    reactor.turn()
    # bring it up and let everything out
    if not c["ip"] and not reactor.d.called:
        reactor.d.callback(ip)
    protocol.transport = Transport(sent, errors, state)
    protocol.startProtocol()
    state["transport"] = state["resolved"] = True
    write(True)
    reactor.turn()
    reactor.turn()
    same([d for d, a in sent], [d for d, cb in written], "handed to the transport in all")
    for d, a in sent:
        same(a, (ip, 8125), "address")
    want = [int(d[1:].split(":")[0]) for d, cb in written if cb]
    same([n for n, r in results], want, "callbacks")
    bad = len([1 for n, r in results if r is None])
    for n, r in results:
        check(r is None or r in (0, len("m%d:1|c" % n)), "callback of message %d got %r", n, r)
    total = len([o for o in c["ops"] if o[0] == "error"])
    check(bad <= total - len(errors), "%d callbacks got None for %d errors", bad, total - len(errors))
