"""The inspector's loop against a reactor that answers its probes at any moment (while it sleeps, between its looks at the queue), with
random clock steps and stops, against a plain account of what was sent and answered when."""
import logging
import Queue
from hlib import check, same
from txstatsd import report

RULE = "3-12 checks, at every call of the inspector the reactor may answer some of its probes and the clock may move; non-trivial with an unanswered check and a late answer"


def cases(rng, tier):
    while True:
        n = rng.randint(3, 12)
        busy = rng.choice([0.2, 0.5, 0.8])
        steps = []
        for _ in range(n):
            steps.append([0 if rng.random() < busy else rng.choice([1, 1, 2, 9]), rng.choice([0.0, 0.25, 2.0])])
        yield {"sleeps": steps, "looks": [[rng.choice([0, 0, 0, 1, 2]), rng.choice([0.0, 0.0, 0.125])] for _ in range(rng.choice([0, 3, 20]))],
               "at_once": [rng.random() < 0.15 for _ in range(n)], "loop": rng.choice([1.0, 3.0]), "service": rng.random() < 0.3}


def nontrivial(c):
    return any(not s[0] for s in c["sleeps"]) and any(s[0] > 1 for s in c["sleeps"])


def valid(c):
    return all(len(s) == 2 for s in c["sleeps"] + c["looks"]) and len(c["at_once"]) >= len(c["sleeps"]) > 0 and c["loop"] > 0


class World(object):
    """The time module and the reactor, as the inspector sees them."""

    def __init__(self, c):
        self.c, self.now, self.tasks, self.sent_at, self.answers = c, 1000.0, [], [], []
        self.sleeps = list(c["sleeps"])
        self.looks = list(c["looks"])
        self.answering = None

    def time(self):
        self.now += 0.0009765625
        return self.now

    def answer(self, n):
        for _ in range(min(n, len(self.tasks))):
            self.answering = self.now
            self.tasks.pop(0)()
            self.now += 0.0625

    def call(self, f, *a, **k):
        check(not self.ri.stopped, "a probe is sent after the inspector was stopped")
        check(not a and not k, "a probe has arguments")
        self.sent_at.append(self.now)
        self.tasks.append(f)
        self.checks[-1]["probes"] += 1
        if self.c["at_once"][min(len(self.checks), len(self.c["at_once"])) - 1]:
            self.answer(1)

    def sleep(self, seconds):
        same(seconds, self.c["loop"], "the time between checks")
        self.now += seconds
        if not self.sleeps:
            self.now += 1
            self.ri.stop()
            return
        n, dt = self.sleeps.pop(0)
        self.answer(n)
        self.now += dt
        if not self.sleeps:
            self.ri.stop()

    def look(self):
        if self.looks:
            n, dt = self.looks.pop(0)
            self.now += dt
            self.answer(n)


class Looked(Queue.Queue):
    """The queue: the reactor may have its turn whenever the inspector looks at it."""

    def get(self, *a, **k):
        self.world.look()
        return Queue.Queue.get(self, *a, **k)

    def get_nowait(self):
        self.world.look()
        w = self.world
        try:
            x = Queue.Queue.get(self, False)
        except Queue.Empty:
            w.checks[-1]["empty_at"] = w.now
            raise
        w.checks[-1]["got"].append(w.taken)
        w.taken += 1
        return x

    def empty(self):
        self.world.look()
        return Queue.Queue.empty(self)

    def put(self, x, *a, **k):
        w = self.world
        w.answered.append((w.answering, w.now))
        return Queue.Queue.put(self, x, *a, **k)


def run(c):
    w = World(c)
    w.taken, w.answered = 0, []
    new = lambda: {"probes": 0, "delays": [], "critical": 0, "got": [], "empty_at": None, "at": w.now}
    w.checks = [new()]

    class Metrics(object):
        def gauge(self, name, value):
            same(name, "delay", "name of the gauge")
            w.checks[-1]["delays"].append((value, w.now))

    def log(msg, logLevel=None, **k):
        if logLevel == logging.CRITICAL:
            w.checks[-1]["critical"] += 1
    reactor = type("Reactor", (), {"callFromThread": staticmethod(w.call)})
    if c["service"]:
        ri = report.ReactorInspectorService(reactor, Metrics(), c["loop"]).inspector
        ri.log = log
    else:
        ri = report.ReactorInspector(reactor.callFromThread, Metrics(), c["loop"], log)
    w.ri = ri
    ri.dump_frames = lambda: None
    ri.queue = Looked()
    ri.queue.world = w
    check(not ri.stopped, "a new inspector is stopped")
    call = w.call

    def probing(f, *a, **k):
        if w.checks[-1]["probes"]:
            finish(w, w.checks[-1])
            w.checks.append(new())
        return call(f, *a, **k)
    ri.reactor_call = probing
    real = report.time
    report.time = w
    try:
        ri.run()
    finally:
        report.time = real
    check(ri.stopped, "the inspector ended before it was stopped")
    finish(w, w.checks[-1])
    same(len(w.sent_at), len(c["sleeps"]), "probes sent until it was stopped")
    del w.sent_at[:]
    w.checks.append(new())
    report.time = w
    try:
        ri.run()
    finally:
        report.time = real
    same(w.sent_at, [], "probes sent after it was stopped")


def finish(w, k):
    same(k["probes"], 1, "probes of a check")
    same(len(k["delays"]), 1, "delays reported by a check")
    d, at = k["delays"][0]
    if k["got"]:
        # its round trip, up to the clock readings in between
        sent, (ran, read) = w.sent_at[k["got"][0]], w.answered[k["got"][0]]
        trips = [(w.answered[i][0] - w.sent_at[i], w.answered[i][1] - w.sent_at[i]) for i in k["got"]]
        check(any(lo - 0.01 <= d <= hi + 0.01 for lo, hi in trips), "an answered check reports %r, the round trips were %r", d, trips)
        same(k["critical"], 0, "critical log entries of an answered check")
    else:
        check(k["empty_at"] is not None, "a check did not look at the queue")
        oldest = w.sent_at[w.taken]
        check(d >= k["empty_at"] - oldest, "an unanswered check reports %r, the oldest unanswered probe was sent %r before", d, k["empty_at"] - oldest)
        before = [x["at"] for x in w.checks if x["at"] <= oldest][-1]
        check(d <= at - before + w.c["loop"] + 5, "an unanswered check reports %r, the oldest unanswered probe was sent %r before", d, at - oldest)
        check(k["critical"] >= 1, "an unanswered check has no critical log entry")
