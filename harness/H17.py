"""Random datagrams and TCP byte streams (cut anywhere) against the monitor message and the lines they contain."""
from hlib import check, same
from txstatsd.server.protocol import StatsDServerProtocol, StatsDTCPServerFactory

RULE = "random datagrams / lines incl. the monitor message, near misses, empty and binary ones, streams cut at random; non-trivial with a monitor message and another one"
LINES = ["a:1|c", "ping", "ping ", " ping", "pin", "pingping", "PING", "", "x", "a:1|c\na:2|c", "\xc3\xa9:1|g", "pong", "a" * 600]


def cases(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 7)):
            ops.append([rng.choice(LINES + ["ping"]), rng.choice(["10.0.0.1", "10.0.0.2"]), rng.randint(1, 65535)])
        yield {"tcp": rng.random() < 0.5, "monitor": rng.choice(["ping", "ping", None, "a:1|c", "two words", "ping "]), "response": rng.choice(["pong", "ok then"]),
               "lines": ops, "cuts": [rng.randint(1, 9) for _ in range(rng.randint(0, 9))], "conns": rng.randint(1, 3)}


def nontrivial(c):
    l = [o[0] for o in c["lines"]]
    return c["monitor"] in l and len(set(l)) > 1


class Reactor(object):
    def __init__(self):
        self.calls = []

    def callLater(self, delay, f, *a, **kw):
        check(delay == 0, "delayed by %r", delay)
        self.calls.append((f, a, kw))

    def turn(self):
        calls, self.calls = self.calls, []
        for f, a, kw in calls:
            f(*a, **kw)


class Transport(object):
    disconnecting = False

    def __init__(self, reactor):
        self.reactor = reactor
        self.out = []

    def write(self, data, addr=None):
        self.out.append((data, addr))

    def loseConnection(self):
        self.out.append("closed")


class Processor(object):
    def __init__(self):
        self.got = []

    def process(self, message):
        self.got.append(message)

    def fail(self, message):
        pass


def run(c):
    reactor = Reactor()
    proc = Processor()
    if not c["tcp"]:
        p = StatsDServerProtocol(proc, monitor_message=c["monitor"], monitor_response=c["response"])
        t = p.transport = Transport(reactor)
        answers, rest = [], []
        for data, host, port in c["lines"]:
            p.datagramReceived(data, (host, port))
            if data == c["monitor"]:
                answers.append((c["response"], (host, port)))
            else:
                rest.append(data)
        same(proc.got, [], "processed within the receiving call")
        same(t.out, answers, "answers")
        reactor.turn()
        same(proc.got, rest, "processed")
        reactor.turn()
        same(proc.got, rest, "processed later")
        same(t.out, answers, "answers in the end")
        return
    f = StatsDTCPServerFactory(proc, monitor_message=c["monitor"], monitor_response=c["response"])
    lines = [l for l, h, p in c["lines"] if "\r\n" not in l]
    conns, total = [], []
    for k in range(c["conns"]):         # all open at once
        p = f.buildProtocol(None)
        p.factory = f
        t = Transport(reactor)
        p.makeConnection(t)
        mine = lines[k:] + lines[:k]
        conns.append([p, t, "".join(l + "\r\n" for l in mine), [(c["response"], None) for l in mine if l == c["monitor"]]])
        total += [l for l in mine if l != c["monitor"]]
    cuts = c["cuts"] or [10 ** 6]
    n = 0
    while any(x[2] for x in conns):
        for k, x in enumerate(conns):
            cut = cuts[(n + k) % len(cuts)]
            if x[2]:
                x[0].dataReceived(x[2][:cut])
                x[2] = x[2][cut:]
        n += 1
    same(proc.got, [], "processed within the receiving call")
    for k, x in enumerate(conns):
        same(x[1].out, x[3], "answers on connection %d" % k)
    calls = len(reactor.calls)
    reactor.turn()
    same(calls, len(total), "scheduled")
    if c["conns"] == 1:
        same(proc.got, total, "processed")
    same(sorted(proc.got), sorted(total), "processed, of all connections")
    for k, x in enumerate(conns):
        same(x[1].out, x[3], "answers on connection %d in the end" % k)
