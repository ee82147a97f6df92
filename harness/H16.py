"""Random rule texts and messages through the real router, compared with an interpreter of the documented rules; redirects run as services on
a stand-in for the reactor."""
import fnmatch
import re
import sys
import types

from twisted.internet import defer


class Reactor(types.ModuleType):
    """Stands in for the reactor: what is sent is recorded, what is scheduled happens at once."""

    def __init__(self):
        types.ModuleType.__init__(self, "reactor")
        self.sent = []

    def resolve(self, host):
        return defer.succeed(host)

    def callFromThread(self, f, *a, **kw):
        f(*a, **kw)

    def callLater(self, when, f, *a, **kw):
        f(*a, **kw)

    def addSystemEventTrigger(self, *a, **kw):
        pass

    def listenUDP(self, port, protocol, *a, **kw):
        t = Transport(self, "udp", None)
        protocol.makeConnection(t)
        protocol.startProtocol() if protocol.transport is t and not t.sent_start else None
        return t

    def connectTCP(self, host, port, factory, *a, **kw):
        p = factory.buildProtocol(None)
        p.makeConnection(Transport(self, "tcp", (host, port)))
        return p.transport


class Transport(object):
    def __init__(self, reactor, kind, peer):
        self.reactor, self.kind, self.peer, self.sent_start = reactor, kind, peer, False

    def write(self, data, addr=None):
        self.reactor.sent.append((self.kind, tuple(addr or self.peer), data))
        return len(data)

    def registerProducer(self, *a):
        pass

    def loseConnection(self):
        pass

    stopListening = disconnect = loseConnection


import twisted.internet
reactor = Reactor()
twisted.internet.reactor = sys.modules["twisted.internet.reactor"] = reactor

from hlib import check, same
from twisted.application.service import MultiService
from txstatsd.server.router import Router

RULE = "random rule texts of up to 5 rules over all conditions and targets (some unknown), random messages; non-trivial with two rules"
KEYS = ["gorets", "a.gorets", "gorets.gorets", "x.y.z", "foo", "foo.bar", "A.b", "dropped.x"]
TYPES = ["c", "ms", "g", "m", "d"]
CONDS = [["any"], ["metric_type", "c"], ["metric_type", "ms", "g"], ["path_like", "goret*"], ["path_like", "*.b*"], ["path_like", "foo"], ["path_like", "[xA]*"], ["path_like", "*drop*"],
         ["metric_type", "d", "c", "m"]]
TARGETS = [["drop"], ["rewrite", "gorets", "glork"], ["rewrite", "(gor)ets", "\\1.x", "dup"], ["rewrite", "^foo", "bar", "nope"], ["rewrite", "o", "0"], ["rewrite", "o", "0", "dup"],
           ["rewrite", "bar$", "q", "dup"], ["rewrite", "$", ".z", "dup"], ["set_metric_type", "g"], ["set_metric_type", "c", "dup"], ["set_metric_type", "ms", "no-dup"],
           ["redirect_udp", "127.0.0.1", "8125"], ["redirect_tcp", "127.0.0.1", "8126"], ["redirect_udp", "some.host", "9"], ["redirect_tcp", "other.host", "10"]]
BAD_C = [["anyy"], ["path"], ["metric-type", "c"], ["not", "nonsense"], ["Any"], ["#any"], ["#", "any"]]
BAD_T = [["dropp"], ["send", "x"], ["redirect", "h", "1"], ["not"], ["set_metric", "c"], ["drop", "=>", "drop"]]


def cases(rng, tier):
    while True:
        rules = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            c = rng.choice(CONDS)
            if rng.random() < 0.04:
                c = rng.choice(BAD_C)
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                c = ["not"] + c
            t = rng.choice(TARGETS) if rng.random() > 0.04 else rng.choice(BAD_T)
            rules.append([c, t, rng.choice([" ", " ", "  "]), rng.choice(["=>", " => ", " => ", "  =>   "]), rng.choice(["\n", "\n", "\n\n"])])
        msgs = [[rng.choice(KEYS), rng.choice(["1", "2.5", "-3", "x"]), rng.choice(TYPES), rng.choice(["", "", "|@0.1"])] for _ in range(rng.randint(1, 5))]
        yield {"rules": rules, "msgs": msgs, "service": rng.random() < 0.7}


def nontrivial(c):
    return len(c["rules"]) > 1


def valid(c):
    return all(len(r) == 5 and r[3].strip() == "=>" and not r[4].strip() and r[4] and not r[2].strip() and r[2] and accepted(r) in (True, False) for r in c["rules"]) and \
        all(len(m) == 4 and m[0] in KEYS and m[2] in TYPES and m[1] and m[3] in ("", "|@0.1") for m in c["msgs"])


def accepted(r):
    c = list(r[0])
    while c and c[0] == "not":
        c = c[1:]
    if c in CONDS and r[1] in TARGETS:
        return True
    if (r[0] in BAD_C or c in [b for b in BAD_C if b[0] != "not"] or c in (["nonsense"], ) or c in CONDS) and (r[1] in TARGETS or r[1] in BAD_T):
        return False
    return None


def matches(c, t, key):
    if c[0] == "not":
        return not matches(c[1:], t, key)
    if c[0] == "any":
        return True
    if c[0] == "metric_type":
        return t in c[1:]
    return fnmatch.fnmatch(key, c[1])


def apply(target, t, key, rest, sent, service):
    name, args = target[0], target[1:]
    if name == "drop":
        return []
    dup = [(t, key)] if args[-1] == "dup" else []
    if name == "rewrite":
        if dup and not re.match(args[0], key):
            dup = []
        return dup + [(t, re.sub(args[0], args[1], key))]
    if name == "set_metric_type":
        return dup + [(args[0], key)]
    if service:
        text = key + ":" + rest[0] + "|" + t + rest[1]
        sent.append((name[-3:], (args[0], int(args[1])), text + ("\r\n" if name == "redirect_tcp" else "")))
    return [(t, key)]


class Processor(object):
    def __init__(self):
        self.got = []

    def process_message(self, message, metric_type, key, fields):
        self.got.append((message, metric_type, key, list(fields)))

    def flush(self, *a):
        return []


def run(c):
    text = "".join(r[2].join(r[0]) + r[3] + r[2].join(r[1]) + r[4] for r in c["rules"])
    proc = Processor()
    service = MultiService() if c["service"] else None
    good = all(accepted(r) for r in c["rules"])
    try:
        router = Router(proc, text, service) if service is not None else Router(proc, text)
    except Exception:
        check(not good, "the rules %r were rejected", text)
        return
    check(good, "the rules %r were accepted", text)
    del reactor.sent[:]
    if service is not None:
        service.startService()
    for key, value, kind, rate in c["msgs"]:
        del proc.got[:], reactor.sent[:]
        sent = []
        now = [(kind, key)]
        for r in c["rules"]:
            after = []
            for t, k in now:
                after += apply(r[1], t, k, (value, rate), sent, c["service"]) if matches(r[0], t, k) else [(t, k)]
            now = after
        router.process("%s:%s|%s%s" % (key, value, kind, rate))
        got = [(m, t, k) for m, t, k, _ in proc.got]
        same(got, [("%s:%s|%s%s" % (k, value, t, rate), t, k) for t, k in now], "reached the processor for %s:%s|%s under %r" % (key, value, kind, text))
        for _, _, _, f in proc.got:
            same([f[0]] + f[2:], [value] + ([rate[1:]] if rate else []), "fields")
        same(reactor.sent, sent, "redirected for %s:%s|%s under %r" % (key, value, kind, text))
