"""Decides equalities between compositions of re.sub calls on a string of any length: each call is a deterministic
finite-state transducer, calls compose, and two transducers are compared by exploring their product.

Symbolic characters: the code points are cut at the ends of all classes that occur, so that every transducer treats all
characters of one interval (an atom) alike.  An output symbol is a character, or COPY: the character being read.
"""
import re
import bisect

import z3

from .core import Unsupported, zs
from . import lib

try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:
    import sre_parse
    import sre_constants as sre

TOP = 0x110000
CATEGORY = {"CATEGORY_DIGIT": "0-9", "CATEGORY_SPACE": " \t\n\r\f\v", "CATEGORY_WORD": "a-zA-Z0-9_"}


def ranges(text):
    out, i = [], 0
    while i < len(text):
        if i + 2 < len(text) and text[i + 1] == "-":
            out.append((ord(text[i]), ord(text[i + 2]) + 1))
            i += 3
        else:
            out.append((ord(text[i]), ord(text[i]) + 1))
            i += 1
    return union(out)


def union(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def complement(rs):
    out, last = [], 0
    for a, b in union(rs):
        if a > last:
            out.append((last, a))
        last = b
    if last < TOP:
        out.append((last, TOP))
    return out


def parse(pattern):
    """(character class as ranges, whether it matches a whole run) of a supported pattern."""
    tree = list(sre_parse.parse(pattern, re.ASCII))

    def one(items):
        if len(items) == 2 and items[1][0] is sre.MAX_REPEAT and items[1][1][0] == 0 and items[1][1][1] is sre.MAXREPEAT:
            # x x*
            (a, run), (b, more) = one([items[0]]), one(list(items[1][1][2]))
            if not run and not more and union(a) == union(b):
                return a, True
        if len(items) != 1:
            raise Unsupported("substitution of %r" % pattern)
        op, arg = items[0]
        if op is sre.SUBPATTERN:
            return one(list(arg[-1]))
        if op is sre.LITERAL:
            return [(arg, arg + 1)], False
        if op is sre.NOT_LITERAL:
            return complement([(arg, arg + 1)]), False
        if op is sre.ANY:
            return complement([(10, 11)]), False
        if op is sre.IN:
            rs, neg = [], False
            for o, v in arg:
                if o is sre.NEGATE:
                    neg = True
                elif o is sre.LITERAL:
                    rs.append((v, v + 1))
                elif o is sre.RANGE:
                    rs.append((v[0], v[1] + 1))
                elif o is sre.CATEGORY:
                    n = str(v)
                    if n in CATEGORY:
                        rs += ranges(CATEGORY[n])
                    elif n.replace("_NOT", "") in CATEGORY:
                        rs += complement(ranges(CATEGORY[n.replace("_NOT", "")]))
                    else:
                        raise Unsupported(n)
                else:
                    raise Unsupported("substitution of %r" % pattern)
            return (complement(rs) if neg else union(rs)), False
        if op is sre.BRANCH:
            alts = [one(list(x)) for x in arg[1]]
            if any(run for _, run in alts):
                raise Unsupported("substitution of %r" % pattern)
            return union([r for rs, _ in alts for r in rs]), False
        if op is sre.MAX_REPEAT and arg[0] == 1 and arg[1] is sre.MAXREPEAT:
            rs, run = one(list(arg[2]))
            return rs, True
        raise Unsupported("substitution of %r" % pattern)
    return one(tree)


class Sub(object):
    """re.sub(pattern, replacement): states 0 (outside) and 1 (within a run)."""

    def __init__(self, pattern, repl):
        if "\\" in repl:
            raise Unsupported("replacement %r" % repl)
        self.cls, self.run = parse(pattern)
        self.repl = repl
        self.start = 0

    def cuts(self):
        return [x for r in self.cls for x in r]

    def has(self, c):
        return any(a <= c < b for a, b in self.cls)

    def step(self, state, c):
        """(next state, output): c is a code point that stands for its atom; output symbols are code points or COPY."""
        if not self.has(c):
            return 0, (COPY,)
        if self.run and state == 1:
            return 1, ()
        return (1 if self.run else 0), tuple(map(ord, self.repl))


COPY = "copy"


class Chain(object):
    """The composition of transducers, first to last."""

    def __init__(self, parts):
        self.parts = parts
        self.start = tuple(p.start for p in parts)

    def cuts(self):
        return [x for p in self.parts for x in p.cuts()]

    def step(self, state, c):
        out, new = [COPY], []
        for p, s in zip(self.parts, state):
            nxt = []
            for sym in out:
                s, o = p.step(s, c if sym is COPY else sym)
                nxt += [sym if x is COPY else x for x in o]
            out = nxt
            new.append(s)
        return tuple(new), tuple(out)


class Spec(object):
    """A transducer given as a function step(state, code point) -> (state, output), with the classes it distinguishes."""

    def __init__(self, start, step, classes):
        self.start, self.step, self._cuts = start, step, [x for rs in classes for r in rs for x in r]

    def cuts(self):
        return self._cuts


class Restricted(object):
    """A transducer on words over a class only: all others give nothing at all."""

    def __init__(self, t, cls):
        self.t, self.cls, self.start = t, union(cls), t.start

    def cuts(self):
        return self.t.cuts() + [x for r in self.cls for x in r]

    def step(self, state, c):
        if state == "dead" or not any(a <= c < b for a, b in self.cls):
            return "dead", ()
        return self.t.step(state, c)


def atoms(*ts):
    """A representative of every atom; a constant output is its own atom."""
    cuts = {0}
    for t in ts:
        cuts.update(t.cuts())
    return sorted(c for c in cuts if c < TOP)


def equal(a, b):
    """None, or a word on which the two transducers differ."""
    reps = atoms(a, b)
    single = set(c for i, c in enumerate(reps) if (reps[i + 1] if i + 1 < len(reps) else TOP) == c + 1)
    todo = [(a.start, b.start, (), (), "")]
    seen = {(a.start, b.start, (), ())}
    for s, t, x, y, word in todo:
        if x or y:
            return word             # the word ends here, with different outputs
        for c in reps:
            s2, o = a.step(s, c)
            t2, q = b.step(t, c)
            o = x + tuple(c if z is COPY and c in single else z for z in o)
            q = y + tuple(c if z is COPY and c in single else z for z in q)
            k = 0
            while k < min(len(o), len(q)) and o[k] == q[k]:
                k += 1
            st = (s2, t2, o[k:], q[k:])
            if st not in seen:
                seen.add(st)
                todo.append(st + (word + chr(c),))
        if len(seen) > 20000:
            raise Unsupported("transducers too large")
    return None


def outputs(t):
    """Every symbol that t can emit, as (code point of the atom, is it a copy); only reachable states."""
    reps = atoms(t)
    todo, seen, out = [t.start], {t.start}, {}
    words = {t.start: ""}
    for s in todo:
        for c in reps:
            n, o = t.step(s, c)
            for z in o:
                out.setdefault(c if z is COPY else z, words[s] + chr(c))
            if n not in seen:
                seen.add(n)
                words[n] = words[s] + chr(c)
                todo.append(n)
    return out


def of_term(t, var):
    """The transducer that a term describes as a function of the string var."""
    parts = []
    while not t.eq(var):
        if z3.is_app(t) and t.decl().eq(lib.RX_SUB) and z3.is_string_value(t.arg(0)) and z3.is_string_value(t.arg(1)):
            parts.insert(0, Sub(decoded(t.arg(0)), decoded(t.arg(1))))
            t = t.arg(2)
        else:
            raise Unsupported("not a chain of substitutions: %s" % t)
    return Chain(parts)


def decoded(t):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t.as_string())
