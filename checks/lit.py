"""Access to the recorded literature."""
import re

from literature import literature


def of(hs, kind):
    return [h for h in hs if h.hypothesis_type == kind]


def sorted_of(kind):
    """The recorded hypotheses of a kind in a fixed order."""
    return sorted(of(literature, kind), key=lambda h: (h.name, str(h.data)))


def letters(s):
    return re.sub(r"[^a-z]", "", s.lower())


def by(h, author, year):
    return letters(str(h.reference.author())) == author and h.reference.year() == year


def named(name, kind):
    return [h for h in of(literature, kind) if h.name == name]


def one(S, name, kind):
    hs = named(name, kind)
    if len(hs) != 1:
        S.fail(f"{name}: recorded {len(hs)} times as {kind!r}")
    return hs[0]
