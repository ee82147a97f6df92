"""Random schedules of writes, pauses and resumptions of TCP redirects against the exact byte stream."""
from hlib import check, same
from txstatsd.server.router import TCPRedirectProtocol, TCPRedirectClientFactory

RULE = "random lines (no / CR / CRLF / LF ending, inner CR and CRLF, one character, empty) with pauses, resumptions, reconnections; non-trivial with a pause and a write after a resumption"
LINES = ["a:1|c", "b.c:2|g", "x:3|ms|@0.5", "", "l", "\r", "\n"]
ENDS = ["", "", "\r", "\r\n", "\n", "\r\r", "\n\r", "\r\n\r\n", "\r\nx"]


def cases(rng, tier):
    while True:
        ops = []
        paused = False
        for _ in range(rng.randint(1, 16)):
            r = rng.random()
            if r < 0.6:
                ops.append(["write", rng.choice(LINES) + rng.choice(ENDS)])
            elif r < 0.75:
                ops.append(["pause"])
            elif r < 0.93:
                ops.append(["resume"])
            else:
                ops.append(["reconnect"])
        yield {"factory": rng.random() < 0.6, "early": rng.randint(0, 2), "ops": ops}


def nontrivial(c):
    k = [o[0] for o in c["ops"]]
    return "pause" in k and "resume" in k and "write" in k[k.index("resume"):]


class Transport(object):
    def __init__(self):
        self.data = []
        self.producer = []

    def registerProducer(self, producer, streaming):
        self.producer.append((producer, streaming))

    def write(self, data):
        self.data.append(data)

    def writeSequence(self, seq):
        self.data.append("".join(seq))


class Reactor(object):
    def __init__(self):
        self.calls = []

    def callLater(self, delay, f, *a, **kw):
        self.calls.append((f, a, kw))


def framed(line):
    if line.endswith("\r\n"):
        return line
    if line.endswith("\r"):
        return line + "\n"
    return line + "\r\n"


def run(c):
    reactor = Reactor()
    called = []
    f = TCPRedirectClientFactory(lambda: called.append(1), reactor=reactor)
    for i in range(c["early"]):
        if c["factory"]:
            f.write("early:1|c")

    def connect():
        p = c["factory"] and f.buildProtocol(None) or TCPRedirectProtocol()
        t = Transport()
        p.makeConnection(t)
        same([(x is p, bool(s)) for x, s in t.producer], [(True, True)], "registered as streaming producer")
        return p, t
    p, t = connect()
    out = f.write
    if not c["factory"]:
        out = lambda l: p.write(l)
    want, paused, dropped = [], False, 0
    for op in c["ops"]:
        if op[0] == "write":
            out(op[1])
            if paused:
                dropped += 1
            else:
                want.append(framed(op[1]))
        elif op[0] == "pause":
            p.pauseProducing()
            paused = True
        elif op[0] == "resume":
            if paused:
                same(p.dropped, dropped, "counted as dropped before resuming")
                p.resumeProducing()
                paused, dropped = False, 0
        else:
            p.connectionLost()
            same("".join(t.data), "".join(want), "written before reconnecting")
            p, t = connect()
            want, paused, dropped = [], False, 0
        same("".join(t.data), "".join(want), "written to the transport")
        same(p.dropped, dropped, "counted as dropped")
    if c["factory"]:
        for g, a, kw in reactor.calls:
            g(*a, **kw)
        same(called, [1], "the connect callback")
