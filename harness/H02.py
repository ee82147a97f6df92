"""Random names over all bytes (and non-ASCII text) against a character-by-character normalisation."""
from hlib import check, same
from txstatsd.server.processor import MessageProcessor, normalize_key
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.router import Router

RULE = "random names of 0-12 characters over ASCII, control and non-ASCII characters, direct, through the processors of every mode and through routing rules; non-trivial with whitespace, slashes or other characters"
KEEP = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
POOL = [" ", "\t", "/", "//", " /", "@", "a", "Z", "9", "0", "_", "-", ".", "\n", "\x0b", "\x0c", "\r", "\\", "[", "]", "^", "`", "{", "\x7f", "\x00", "\xe9", "\xff", ",", "+", "*", "$"]


def cases(rng, tier):
    while True:
        name = "".join(rng.choice(POOL) if rng.random() < 0.8 else chr(rng.choice(range(128) + range(160, 256))) for _ in range(rng.randint(0, 12)))
        yield {"name": name, "unicode": rng.random() < 0.15, "type": rng.choice(["c", "ms", "g", "m"])}


def nontrivial(c):
    return c["name"].strip(KEEP) != ""


def valid(c):
    return c["type"] in ("c", "ms", "g", "m")


def normal(name):
    out, run = [], None
    for ch in name:
        kind = ch in " \t\n\r\x0b\x0c" and "_" or ch == "/" and "-" or None
        if kind:
            if run != kind:
                out.append(kind)
        elif ch in KEEP:
            out.append(ch)
        run = kind
    return "".join(out)


RULES = ["", "metric_type zz => drop", "any => rewrite ^(.+)$ r.\\1\nnot any => drop"]


class Logger(object):
    def info(self, text):
        pass


def run(c):
    name = c["name"]
    if c["unicode"]:
        name = name.decode("latin-1") + u"\u20ac"
    same(normalize_key(name), normal(name), "normalised")
    same(normalize_key(normalize_key(name)), normal(name), "normalised twice")
    if c["unicode"] or ":" in name or "|" in name:
        return
    sent = name + "x"
    want = normal((sent + ":1|").strip().split(":")[0])
    new = [lambda: MessageProcessor(time_function=lambda: 1), lambda: ConfigurableMessageProcessor(time_function=lambda: 1),
           lambda: LoggingMessageProcessor(Logger(), time_function=lambda: 1)]
    for make, rules in [(m, None) for m in new] + [(new[0], r) for r in RULES]:
        proc = make()
        (proc if rules is None else Router(proc, rules)).process(sent + ":1|" + c["type"])
        name = "r." + want if rules and "rewrite" in rules else want
        same(proc.get_metric_names(), [name], "names after one sample" + (rules and " with the rules %r" % rules or ""))
        points = [m for m, v, t in proc.flush() if not m.startswith("statsd.")]
        for m in points:
            check(m.strip(KEEP) == "", "reported as %r", m)
