"""Random histories of a hash ring: owners by key compared between rings with the same nodes, before and after each change; and the
client that routes by it."""
from hlib import check, same
from txstatsd.client import ConsistentHashingClient
from txstatsd.hashing import ConsistentHashRing

RULE = "random node sets, replica counts, orders of additions and removals (also with few positions, for collisions), keys; non-trivial with three nodes"
NAMES = ["a", "b", "10.0.0.1", "10.0.0.2", "host1", "host2", "host10", "a:1", "x y", ("10.0.0.1", 8125), ("10.0.0.1", 8126), ("a", None), 7, 1, "1", "7"]
KEYS = ["", "k", "some.metric", "a:1", "a:0", "x y", "z" * 50] + ["metric.%d" % i for i in range(60)]


def cases(rng, tier):
    while True:
        nodes = rng.sample(range(len(NAMES)), rng.randint(1, 6))
        ops = []
        for _ in range(rng.randint(0, 8)):
            ops.append([rng.choice(["add", "remove", "remove", "look", "list"]), rng.randrange(len(NAMES))])
        yield {"nodes": nodes, "replicas": rng.choice([1, 1, 2, 3, 10, 30]), "mod": rng.choice([0, 0, 0, 5, 40]), "ops": ops, "keys": rng.sample(range(len(KEYS)), rng.randint(3, 30)),
               "order": rng.randrange(1000), "client": rng.random() < 0.3}


def nontrivial(c):
    return len(c["nodes"]) > 2


def valid(c):
    return len(c["nodes"]) > 0 and len(c["keys"]) > 0 and all(len(o) == 2 for o in c["ops"])


def build(names, replicas, mod):
    r = ConsistentHashRing([], replicas) if replicas is not None else ConsistentHashRing([])
    if mod:
        inner = r.compute_ring_position
        r.compute_ring_position = lambda key: inner(key) % mod
    for n in names:
        r.add_node(n)
    return r


def owners(r, keys):
    return [r.get_node(k) for k in keys]


def member(x, names):
    return any(type(x) is type(n) and x == n for n in names)


def other(n):
    """An equal node that is another object."""
    return isinstance(n, str) and "".join(list(n)) or isinstance(n, tuple) and tuple(map(other, n)) or n


def run(c):
    names = [NAMES[i] for i in c["nodes"]]
    keys = [KEYS[i] for i in c["keys"]]
    shuffled = [n for _, n in sorted((hash((c["order"], repr(n))), n) for n in names)]
    ring = build(names, c["replicas"], c["mod"])
    same(owners(build(shuffled, c["replicas"], c["mod"]), keys), owners(ring, keys), "owners after adding the nodes in another order")
    if not c["mod"]:
        same(owners(ConsistentHashRing(shuffled, c["replicas"]), keys), owners(ring, keys), "owners with the nodes given at construction")
    now = list(names)
    for op, i in c["ops"]:
        n = NAMES[i]
        before = owners(ring, keys)
        if op == "add":
            ring.add_node(other(n))
            if n not in now:
                now.append(n)
            for k, was, own in zip(keys, before, owners(ring, keys)):
                check(own in (was, n), "adding %r moved key %r from %r to %r", n, k, was, own)
        elif op == "remove":
            if [x for x in now if x != n]:
                ring.remove_node(other(n))
                now = [x for x in now if x != n]
                for k, was, own in zip(keys, before, owners(ring, keys)):
                    check(own == was or was == n, "removing %r moved key %r from %r to %r", n, k, was, own)
        elif op == "look":
            same(owners(ring, keys[::-1])[::-1], before, "owners asked again")
        for k in keys:
            check(member(ring.get_node(k), now), "key %r is owned by %r, not one of the nodes", k, ring.get_node(k))
        if op == "list":
            for k in keys[:6]:
                got = ring.get_nodes(k)
                same(sorted(got, key=repr), sorted(now, key=repr), "the nodes listed for a key")
                same(got[0], ring.get_node(k), "the first node listed")
    fresh = build([n for _, n in sorted((hash((c["order"], repr(n))), n) for n in now)], c["replicas"], c["mod"])
    same(owners(ring, keys), owners(fresh, keys), "owners after the changes, and in a new ring with the same nodes")
    for k in keys[:6]:
        got = ring.get_nodes(k)
        same(sorted(got, key=repr), sorted(now, key=repr), "the nodes listed for a key")
        same(got[0], ring.get_node(k), "the first node listed")
        same(got, fresh.get_nodes(k), "the nodes listed for a key, in a new ring")
    same(sorted(ring.nodes, key=repr), sorted(now, key=repr), "the nodes of the ring")
    if c["client"]:
        client(names[:3], shuffled, keys[:8])


class Sink(object):
    def __init__(self, name):
        self.name, self.got, self.calls = name, [], []

    def __str__(self):
        return "sink %s" % (self.name,)

    def write(self, data):
        self.got.append(data)

    def connect(self):
        self.calls.append("connect")

    def disconnect(self):
        self.calls.append("disconnect")


def client(names, other, keys):
    sinks = [Sink(n) for n in names]
    ring = ConsistentHashRing(sinks)
    c = ConsistentHashingClient(sinks)
    c.connect()
    for s in sinks:
        same(s.calls, ["connect"], "a client when all are connected")
    for n, k in enumerate(keys):
        k = k.replace(":", "_")
        for value in ("1|c", "2:3|ms"):
            data = "%s:%s" % (k, value)
            c.write(data)
            for s in sinks:
                want = [data] if s is ring.get_node(k) else []
                same(s.got, want, "written to %s" % s)
                del s.got[:]
    c.disconnect()
    for s in sinks:
        same(s.calls, ["connect", "disconnect"], "a client when all are disconnected")
