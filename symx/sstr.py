"""Symbolic strings, for the code that reads the bibliography.

A character is a plain one-character string, or a solver variable that selects one of
finitely many characters (all of printable ASCII, say).  A string has a fixed number of
them.  Comparisons are formulas; where the code needs their truth value the engine
explores every feasible outcome.  `load_module` runs a source file with its string
constants, int and open replaced by their counterparts here.
"""
import ast
import builtins

from . import engine as E
from .engine import And, Not, Or

WS = " \t\n\r\x0b\x0c"


class Char:
    """options[i] for the value i of a variable."""
    __slots__ = ("var", "options")

    def __init__(self, var, options):
        self.var = var
        self.options = tuple(options)

    def where(self, pred):
        hit = [i for i, o in enumerate(self.options) if pred(o)]
        if not hit:
            return False
        if len(hit) == len(self.options):
            return True
        return Or([self.var == i for i in hit])


def char_is(c, pred):
    return pred(c) if isinstance(c, str) else c.where(pred)


def char_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return b.where(lambda o: o == a)
    if isinstance(b, str):
        return a.where(lambda o: o == b)
    if a.var is b.var:
        same = [i for i, (x, y) in enumerate(zip(a.options, b.options)) if x == y]
        return True if len(same) == len(a.options) else Or([a.var == i for i in same]) if same else False
    alts = [And(a.var == i, b.var == j) for i, x in enumerate(a.options) for j, y in enumerate(b.options) if x == y]
    return Or(alts) if alts else False


def char_map(c, f):
    if isinstance(c, str):
        return f(c)
    r = [f(o) for o in c.options]
    if any(len(x) != 1 for x in r):
        raise E.EngineLimit("character mapped to several")
    return r[0] if len(set(r)) == 1 else Char(c.var, r)


def chars(x):
    if isinstance(x, SStr):
        return x.cs
    if isinstance(x, str):
        return list(x)
    raise TypeError(f"string expected, got {type(x).__name__}")


class SStr:
    __slots__ = ("cs",)

    def __init__(self, x=""):
        self.cs = list(x.cs) if isinstance(x, SStr) else list(x)

    # -- plain text, if there are no variables in it
    def plain(self):
        return "".join(self.cs) if all(isinstance(c, str) for c in self.cs) else None

    def __repr__(self):
        return "".join(c if isinstance(c, str) else "?" for c in self.cs)
    __str__ = __repr__

    def in_model(self, m):
        return "".join(c if isinstance(c, str) else c.options[int(E.model_value(m, c.var))] for c in self.cs)

    def __hash__(self):
        return 7919

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        return iter([SStr([c]) for c in self.cs])

    def __getitem__(self, i):
        return SStr(self.cs[i]) if isinstance(i, slice) else SStr([self.cs[i]])

    def __add__(self, o):
        return SStr(self.cs + chars(o)) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr(chars(o) + self.cs) if isinstance(o, (str, SStr)) else NotImplemented

    def __mul__(self, n):
        return SStr(self.cs * n)
    __rmul__ = __mul__

    def same(self, o):
        """Formula: the two strings are equal."""
        a, b = self.cs, chars(o)
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            e = char_eq(x, y)
            if e is False:
                return False
            if e is not True:
                parts.append(e)
        return And(parts) if parts else True

    def __eq__(self, o):
        return self.same(o) if isinstance(o, (str, SStr)) else False

    def __ne__(self, o):
        e = self == o
        return not e if isinstance(e, bool) else Not(e)

    def __lt__(self, o):
        a, b = self.plain(), SStr(o).plain()
        if a is None or b is None:
            raise E.EngineLimit("order of symbolic strings")
        return a < b

    def __contains__(self, o):
        return self.find(o) >= 0

    # -- searching (forks on every position that may match)
    def _at(self, pat, i):
        return bool(SStr(self.cs[i:i + len(pat)]).same(SStr(pat)))

    def _find(self, pat, start=0, end=None):
        end = len(self.cs) if end is None else end
        for i in range(start, end - len(pat) + 1):
            if self._at(pat, i):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        return self._find(chars(sub), start, end)

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rfind(self, sub):
        p = chars(sub)
        for i in range(len(self.cs) - len(p), -1, -1):
            if self._at(p, i):
                return i
        return -1

    def count(self, sub):
        return len(self._split(chars(sub), -1)) - 1

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        p = chars(p)
        return len(p) <= len(self.cs) and self._at(p, 0)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        p = chars(p)
        return len(p) <= len(self.cs) and self._at(p, len(self.cs) - len(p))

    def removeprefix(self, p):
        return SStr(self.cs[len(chars(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(chars(p))
        return SStr(self.cs[:len(self.cs) - n]) if n and self.endswith(p) else self

    def _split(self, sep, n):
        if not sep:
            raise ValueError("empty separator")
        out, i = [], 0
        while n < 0 or len(out) < n:
            j = self._find(sep, i)
            if j < 0:
                break
            out.append(SStr(self.cs[i:j]))
            i = j + len(sep)
        return out + [SStr(self.cs[i:])]

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return self._split(chars(sep), maxsplit)
        out, cur = [], []
        for k, c in enumerate(self.cs):
            if bool(char_is(c, str.isspace)):
                if cur:
                    out.append(SStr(cur))
                    cur = []
            else:
                if not cur and len(out) == maxsplit:
                    return out + [SStr(self.cs[k:]).rstrip()]
                cur.append(c)
        return out + ([SStr(cur)] if cur else [])

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise E.EngineLimit("rsplit at white space")
        s, out = self, []
        while len(out) < maxsplit:
            a, d, b = s.rpartition(sep)
            if not d:
                break
            out.insert(0, b)
            s = a
        return [s] + out

    def splitlines(self, keepends=False):
        out, cur = [], []
        for c in self.cs:
            cur.append(c)
            if bool(char_is(c, lambda o: o == "\n")):
                out.append(SStr(cur if keepends else cur[:-1]))
                cur = []
        return out + ([SStr(cur)] if cur else [])

    def partition(self, sep):
        p = chars(sep)
        i = self._find(p)
        return (self, SStr(), SStr()) if i < 0 else (SStr(self.cs[:i]), SStr(p), SStr(self.cs[i + len(p):]))

    def rpartition(self, sep):
        i, n = self.rfind(sep), len(chars(sep))
        return (SStr(), SStr(), self) if i < 0 else (SStr(self.cs[:i]), SStr(sep), SStr(self.cs[i + n:]))

    def replace(self, old, new, count=-1):
        return SStr(new).join(self._split(chars(old), count))

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k:
                out += self.cs
            out += chars(p)
        return SStr(out)

    # -- character classes
    def _in(self, c, which):
        if which is None:
            return bool(char_is(c, str.isspace))
        return any(bool(char_eq(c, w)) for w in chars(which))

    def lstrip(self, which=None):
        i = 0
        while i < len(self.cs) and self._in(self.cs[i], which):
            i += 1
        return SStr(self.cs[i:])

    def rstrip(self, which=None):
        i = len(self.cs)
        while i > 0 and self._in(self.cs[i - 1], which):
            i -= 1
        return SStr(self.cs[:i])

    def strip(self, which=None):
        return self.lstrip(which).rstrip(which)

    def _all(self, pred):
        return bool(self.cs) and all(bool(char_is(c, pred)) for c in self.cs)

    def isdigit(self):
        return self._all(str.isdigit)
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(str.isspace)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def lower(self):
        return SStr([char_map(c, str.lower) for c in self.cs])
    casefold = lower

    def upper(self):
        return SStr([char_map(c, str.upper) for c in self.cs])

    def number(self):
        """int(self)"""
        s = self.strip()
        if s.plain() is not None:
            return builtins.int(s.plain())
        if not s.isdigit():
            if s.cs and bool(char_is(s.cs[0], lambda o: o in "+-")):
                raise E.EngineLimit("signed symbolic number")
            raise ValueError(f"invalid literal for int(): {s!r}")
        n = 0
        for c in s.cs:
            n = 10 * n + (builtins.int(c) if isinstance(c, str) else digit(c))
        return n

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        p = self.plain()
        if p is None:
            raise E.EngineLimit(f"str.{name} on a symbolic string")
        return getattr(p, name)

    def __format__(self, spec):
        raise E.EngineLimit("symbolic string formatted")


def digit(c):
    ok = [(i, builtins.int(o)) for i, o in enumerate(c.options) if o.isdigit()]
    if all(i - j == ok[0][0] - ok[0][1] for i, j in ok):
        return c.var - (ok[0][0] - ok[0][1])
    for i, j in ok:
        if bool(c.var == i):
            return j
    raise E.EngineLimit("digit")


# ---------------------------------------------------------------------------

class _File:
    def __init__(self, text):
        self.rest = SStr(text).splitlines(True)

    def readlines(self):
        r, self.rest = self.rest, []
        return r

    def readline(self):
        return self.rest.pop(0) if self.rest else SStr()

    def read(self):
        return SStr("").join(self.readlines())

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Wrap(ast.NodeTransformer):
    def visit_Constant(self, n):
        if not isinstance(n.value, str):
            return n
        return ast.copy_location(ast.Call(ast.Name("_S", ast.Load()), [n], []), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(self.visit(v.value))
            else:
                return n
        return ast.copy_location(ast.Call(ast.Name("_fmt", ast.Load()), parts, []), n)

    def visit_MatchValue(self, n):
        return n


def _fmt(*parts):
    out = []
    for p in parts:
        if isinstance(p, (str, SStr)):
            out += chars(p)
        elif E.is_sym(p):
            raise E.EngineLimit("symbolic number formatted")
        else:
            out += list(builtins.str(p))
    return SStr(out)


class _Type(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) or (isinstance(x, SStr) if cls.real is str else cls.real is int and E.is_sym(x))

    def __call__(cls, *a):
        return cls.conv(*a)


def _type(real, conv):
    return _Type(real.__name__, (), {"real": real, "conv": staticmethod(conv)})


def _int(x=0, *a):
    if isinstance(x, SStr):
        return x.number()
    return x if E.is_sym(x) else builtins.int(x, *a)


def _float(x=0):
    if isinstance(x, SStr):
        x = x.plain() if x.plain() is not None else x.number()
    return x if E.is_sym(x) else builtins.float(x)


def _str(x=""):
    return x if isinstance(x, SStr) else _fmt(x)


def load_module(path, files):
    """Namespace of a source file run on symbolic strings; files: path -> text."""
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    tree = ast.fix_missing_locations(_Wrap().visit(tree))

    def opened(p, *a, **k):
        return _File(files[p.plain() if isinstance(p, SStr) else p])
    ns = {"__name__": "reference_sym", "__file__": path, "_S": SStr, "_fmt": _fmt, "open": opened,
          "int": _type(int, _int), "float": _type(float, _float), "str": _type(str, _str)}
    exec(compile(tree, path, "exec"), ns)  # noqa: S102
    return ns
