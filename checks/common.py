"""Shared helpers of the harnesses (work symbolically and concretely)."""
import re

from symx import engine as E
from symx.harness import F, And, Or, Not

NUM = r"SYM__T_\d+_|\d+(?:\.\d+)?(?:/\d+)?"


def number(tok):
    if tok.startswith("SYM__"):
        return E.CTX.tokens[tok]
    return F(tok)


def parse_poly(s, var):
    """{degree: coefficient} of a rendered polynomial, or None if it does not read back."""
    s = s.strip()
    out = {}
    pos = 0
    first = True
    rx = re.compile(r"\s*([+-])?\s*(" + NUM + r")?\s*(" + re.escape(var) + r"(?:\^(\d+))?)?\s*")
    while pos < len(s):
        m = rx.match(s, pos)
        sign, num, v, e = m.groups()
        if m.end() == pos or (num is None and v is None) or (not first and sign is None):
            return None
        c = number(num) if num is not None else F(1)
        if sign == "-":
            c = -c
        d = 0 if v is None else (int(e) if e else 1)
        out[d] = out.get(d, F(0)) + c
        pos = m.end()
        first = False
    return out if not first else None


def value(v):
    """A number returned by the library as an exact (possibly symbolic) rational."""
    if isinstance(v, E.SNum):
        return v
    c = E.as_exact(v)
    if c is not None:
        return c
    if E.CTX is not None:
        from symx import sympyx
        return sympyx.to_engine(v)
    import sympy
    v = sympy.nsimplify(v) if getattr(v, "is_Float", False) else sympy.simplify(v)
    c = E.as_exact(v)
    return v if c is None else c


def horner(c, x):
    """Value of the polynomial with coefficients c (highest degree first)."""
    r = F(0)
    for a in c:
        r = r * x + a
    return r


def parse_lin(s, names):
    """[c0, c1, ...] of a rendered affine expression in the given variables, or None if it does not read back."""
    s = s.strip()
    out = [F(0)] * (len(names) + 1)
    rx = re.compile(r"\s*([+-])?\s*(" + NUM + r")?\s*(" + "|".join(map(re.escape, names)) + r")?\s*")
    pos, first = 0, True
    while pos < len(s):
        m = rx.match(s, pos)
        sign, num, v = m.groups()
        if m.end() == pos or (num is None and v is None) or (not first and sign is None):
            return None
        c = number(num) if num is not None else F(1)
        i = 0 if v is None else 1 + names.index(v)
        out[i] = out[i] + (-c if sign == "-" else c)
        pos, first = m.end(), False
    return None if first else out
