"""Texts with arbitrary characters (symbolic strings, plain ones in a replay)."""
from symx import sstr
from symx.harness import F, And, Or, Not

PRINT = "".join(map(chr, range(32, 127)))


class Text:
    """A text assembled from fixed and arbitrary characters."""

    def __init__(self, S):
        self.S = S
        self.n = 0

    def char(self, options):
        S = self.S
        self.n += 1
        v = S.real(f"c{self.n}")
        S.assume(Or([v == i for i in range(len(options))]))
        return [sstr.Char(v, options)] if S.sym else [options[int(v)]]

    def word(self, spec, kind):
        """spec: '?' is an arbitrary character of the kind, others stand for themselves."""
        out = []
        for c in spec:
            out += self.char(kind) if c == "?" else [c]
        return self.done(out)

    def cased(self, word):
        """The word in any mixture of upper and lower case (its first two letters vary)."""
        out = []
        for i, c in enumerate(word):
            out += self.char(c.lower() + c.upper()) if i < 2 else [c]
        return self.done(out)

    def done(self, cs):
        return sstr.SStr(cs) if self.S.sym else "".join(cs)

    def cat(self, *parts):
        out = []
        for p in parts:
            out += sstr.chars(p) if self.S.sym else list(p)
        return self.done(out)


def within(S, w, a):
    """Formula: w occurs in a."""
    n = len(w)
    return Or([same(S, a[i:i + n], w) for i in range(len(a) - n + 1)]) if len(a) >= n else False


def same(S, a, b):
    """Formula: the two values (text or numbers) are equal."""
    if S.sym and isinstance(b, (str, sstr.SStr)):
        return sstr.SStr(b).same(a) if isinstance(a, (str, sstr.SStr)) else False
    if isinstance(a, (str, sstr.SStr)):
        return a == b
    return a == b if a is not None else False
