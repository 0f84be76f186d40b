"""The bibliography: what is read from a BibTeX file, and how references are found and dated."""
import os
import tempfile

from symx import env
from symx import sstr
from symx.harness import F, And, Or, Not, Implies, Iff
from checks.text import PRINT, Text, same, within
import reference as real

BOUNDS = ("files of one or two entries, each with a label of 3 characters and at most 4 fields of the layouts listed in the evidence; every character marked "
          "arbitrary ranges over all of printable ASCII that may stand there (label 72, name 58, inside a value up to 92 characters); years of 4 arbitrary digits; "
          "lists of at most 3 references with arbitrary years")
ASSUMPTIONS = ["entries are well formed: braces balanced, labels distinct, quoted values without inner quotation marks, one pair of delimiters per value (no # concatenation)",
               "no text with braces outside entries"]

LETTERS = "".join(c for c in PRINT if c.isalpha())
LABEL = "".join(c for c in PRINT if c.isalnum() or c in "_:.-+/*!?")
NAME = LETTERS + "'-.`~^"
DIGITS = "0123456789"
TEXT = "".join(c for c in PRINT if c not in "{}\\")


def begin(S, text=""):
    """The module and a manager that has read the text."""
    if S.sym:
        M = sstr.load_module(os.path.join(env.LIB, "reference.py"), {"refs.bib": text})
        return M["Reference"], M["Reference_Manager"]("refs.bib")
    fd, path = tempfile.mkstemp(suffix=".bib")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        m = real.Reference_Manager(path)
        if text:
            m.load()
    finally:
        os.unlink(path)
    return real.Reference, m


def lookup(d, key):
    """The value under a key of a dictionary read, None if absent (or there twice)."""
    hit = [v for k, v in d.items() if (k.plain() if isinstance(k, sstr.SStr) else k) == key or (isinstance(k, sstr.SStr) and k.plain() is None and bool(k == key))]
    return hit[0] if len(hit) == 1 else None


def authors(t, specs):
    """Text of an author field and the names it stands for."""
    parts, names = [], []
    for s in specs:
        pre, last, post = s.split("|")
        name = t.word(last, NAME)
        parts.append(t.cat(t.word(pre, NAME), name, t.word(post, NAME)))
        names.append(name)
    out, want = parts[0], names[0]
    for p, n in zip(parts[1:], names[1:]):
        out, want = t.cat(out, " and ", p), t.cat(want, "--", n)
    return out, want


def entry(S, t, spec, first=True):
    """Text of one entry and what it says: (label, type, {key: value})."""
    typ = t.cased(spec.get("type", "article"))
    label = t.word(spec.get("label", "???"), LABEL)
    ws = spec.get("ws", " ")
    gap = lambda: t.word(ws, " \t") if ws == "?" else ws
    out = t.cat("@", typ, "{", gap() if spec.get("pad") else "", label)
    want = {}
    for key, kind, val in spec["fields"]:
        left, right = {"b": "{}", "q": '""', "n": ("", "")}[kind]
        k = t.cased(key) if spec.get("case") else key
        if key == "year":
            digits = t.word(val, DIGITS)
            text = digits
            n = 0
            for c in (sstr.chars(digits) if S.sym else digits):
                if c == "/":
                    break
                n = 10 * n + (int(c) if isinstance(c, str) else sstr.digit(c))
            want[key] = n
        elif key == "author":
            text, want[key] = authors(t, val)
        else:
            opts = TEXT if kind == "b" else TEXT.replace('"', "") if kind == "q" else LETTERS
            text = t.word(val.replace("\n", " \n  ") if "\n" in val else val, opts)
            w = t.word(val.replace("\n", " "), opts) if "?" not in val else None
            if w is None:
                cs = sstr.chars(text) if S.sym else list(text)
                flat, i = [], 0
                while i < len(cs):
                    if cs[i] == " " and cs[i + 1:i + 4] == ["\n", " ", " "]:
                        flat.append(" ")
                        i += 4
                    else:
                        flat.append(cs[i])
                        i += 1
                w = t.done(flat)
            if len(val):
                want[key] = w
        out = t.cat(out, ",", spec.get("nl", "\n  "), k, gap(), "=", gap(), left, text, right)
    return t.cat(out, "," if spec.get("comma") else "", spec.get("nl", "\n"), "}"), label, typ, want


def h_read(S, entries, sep="\n\n", lead=""):
    t = Text(S)
    parsed = [entry(S, t, e) for e in entries]
    text = lead
    for i, p in enumerate(parsed):
        text = t.cat(text, sep if i else "", p[0])
    if len(parsed) == 2:
        S.assume(Not(same(S, parsed[0][1], parsed[1][1])))
    R, m = begin(S, text)
    if S.sym:
        m.load()
    S.check(len(m.refs) == len(parsed), "every entry is one reference")
    for _, label, typ, want in parsed:
        r = m.get(label)
        S.check(same(S, r.label, label), "get returns the entry with that label")
        S.check(same(S, r.reftype, typ.lower()), "the type is that of the entry")
        for key in ("author", "title", "year", "journal", "month", "note", "volume"):
            got = lookup(r.entries, key)
            if key in want:
                S.check(same(S, got, want[key]) if got is not None else False, f"{key} is as written")
                S.observe(key, got)
            else:
                S.check(got is None, f"no {key} is made up")
        S.check(same(S, r.author(), want.get("author", "Unknown author")), "author")
        S.check(same(S, r.year(), want.get("year", "Unknown date")), "year")


def h_layout(S, order, nls):
    """One entry in every layout: delimiters, line breaks, spacing, trailing comma."""
    f = {"author": lambda: ["author", S.choice("da", ["b", "q"]), ["|d? ?u|, A. ?", "? |?y|"]], "title": lambda: ["title", S.choice("dt", ["b", "q"]), "?{?b} a?x"],
         "year": lambda: ["year", S.choice("dy", ["b", "q", "n"]), "????"]}
    e = dict(fields=[f[k]() for k in order], label="??", nl=S.choice("nl", nls), ws=S.choice("ws", ["", " "]), comma=S.boolean("comma"))
    h_read(S, [e])


def h_find(S, refs, ask, year=None):
    """refs: (author spec or None, has a year)."""
    t = Text(S)
    R, m = begin(S)
    made = []
    for i, (a, y) in enumerate(refs):
        f = {}
        if a is not None:
            f["author"] = t.word(a, NAME)
        if y:
            f["year"] = S.real(f"y{i}")
        key = (lambda k: sstr.SStr(k)) if S.sym else (lambda k: k)
        r = R(key(f"L{i}"), key("article"), {key(k): v for k, v in f.items()})
        m.refs[key(f"L{i}")] = r
        made.append((r, f))
    kw = {}
    if ask is not None:
        kw["author"] = q = t.word(ask, NAME)
    if year:
        kw["year"] = z = S.real("z")
    got = m.find_all(**kw)
    S.check(len({id(r) for r in got}) == len(got), "no reference twice")
    for r, f in made:
        ok = []
        if ask is not None:
            a = f.get("author", "")
            ok.append(within(S, q, a))
        if year:
            ok.append(f["year"] == z if "year" in f else False)
        S.check(Iff(And(ok) if ok else True, any(g is r for g in got)), "find_all returns exactly the references asked for")
    for r, f in made:
        S.check(m.get(r.label) is r, "get")
    try:
        m.get(t.word("L9", NAME))
        S.fail("get of an unknown label is an error")
    except ValueError:
        pass


def h_max(S, kinds):
    """kinds: y (arbitrary year), n (no year), c (classical), t (trivial), d (derived in an arbitrary year)."""
    R, _ = begin(S)
    key = (lambda k: sstr.SStr(k)) if S.sym else (lambda k: k)
    refs, years = [], []
    for i, k in enumerate(kinds):
        if k == "n":
            refs.append(R(key("n"), key("article"), {}))
            continue
        y = S.real(f"y{i}", lo=0) if k in "yd" else -1
        refs.append(R(key("y"), key("article"), {key("year"): y}) if k == "y" else R.derived(y) if k == "d" else R.classical() if k == "c" else R.trivial())
        years.append(y)
    got = R.max_year(refs)
    if "n" in kinds:
        S.check(same(S, got, "Unknown date"), "unknown if one of them is")
    elif not kinds:
        S.check(got == -1, "no references")
    else:
        S.check(And([y <= got for y in years] + [Or([got == y for y in years])]), "the latest year")


HARNESSES = {"read": h_read, "layout": h_layout, "find": h_find, "max": h_max}

FULL = [["author", "b", ["|v?n d? Corput|, J. ?.", "A. ? |M?y|"]], ["title", "b", "A ?{?}b"], ["year", "b", "????"]]


def tasks(tier):
    o = []
    a = o.append
    one = lambda fields, **k: {"entries": [dict(fields=fields, **k)]}
    a(one(FULL))
    a(one(FULL, case=True, comma=True, label="?x?"))
    a(one(FULL[::-1], ws="?", pad=True, label="a?"))
    a(one([["title", "b", "???"]], label="b"))
    a(one([["title", "b", "a?c\nd?b"], ["year", "b", "20??/2?"]], label="b"))
    a(one([["title", "q", "x??y"], ["year", "q", "????"], ["month", "n", "?a?"]], label="b?"))
    a(one([["year", "n", "????"], ["journal", "q", "J, {?} = ?z"], ["author", "q", ["|?h|, X. Y.", "??? |?b|"]]], label="c?"))
    a(one([["year", "n", "19??"], ["author", "b", ["A|b?|"[1:], "|??|", "|?and?|, B", "|and?|, B"]]], label="c?"))
    a(one([["note", "b", ""], ["volume", "b", "?"], ["author", "b", ["|Xy|, ?"]]], label="c?", comma=True))
    a(one([["month", "n", "jan"], ["volume", "n", "7"], ["note", "q", ""], ["title", "b", "a=?, @b{c} ?d"]], label="c?", nl=" "))
    a(one([], label="c?"))
    a(one([["author", "b", ["? |v|", "?, |Jr|"[3:]]]], label="c?", type="Book"))
    two = [dict(fields=[["author", "b", ["|??|, A"]], ["year", "b", "20??"]], label="??"), dict(fields=[["title", "b", "@?{?}"], ["year", "b", "19??"]], label="??", type="book")]
    a({"entries": two})
    a({"entries": two[::-1], "sep": ""})
    a({"entries": [dict(two[0], label="?"), dict(two[1], label="?", comma=True)], "sep": "\n", "lead": "\n\n"})
    a({"entries": [dict(fields=[["title", "q", "u?"]], label="?"), dict(fields=[["year", "n", "2???"]], label="?x")], "sep": "\nsee below, 10 = ten\n", "lead": "% made by hand, 2020\n"})
    out = [{"h": "read", "cfg": c, "budget": 300, "weight": 2} for c in o]
    for order in ("author title year", "title year author", "year author title"):
        out.append({"h": "layout", "cfg": {"order": order.split(), "nls": ["\n", "\n\t", ""] if tier == "quick" else ["\n", "\n\n  ", "\n\t", " ", ""]}, "budget": 300, "weight": 5})
    w2, w3 = ["A??", True], ["?a?b", True]
    for refs, ask, y in (([w2, w3, [None, True]], "?a", False), ([w2, w3], None, True), ([w2, ["B??", False], [None, False]], "??", True), ([w3, w3], None, False), ([w3, ["", True]], "?", True)):
        out.append({"h": "find", "cfg": {"refs": refs, "ask": ask, "year": y}, "budget": 200, "weight": 1})
    for k in ("", "y", "yy", "yyy", "n", "yn", "ny", "cy", "tyd", "dcy", "ync"):
        out.append({"h": "max", "cfg": {"kinds": k}, "budget": 100, "weight": 1})
    return out
