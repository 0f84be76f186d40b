"""Polynomial ring operations and display."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks.common import parse_poly
from polynomial import Polynomial
from helpers.str_helper import Str_Helper

BOUNDS = "arbitrary rational coefficients; degrees up to 3 (sum, difference, product) and 4 (display)"
ASSUMPTIONS = []


def mk(S, n, k):
    c = S.reals([f"{n}{i}" for i in range(k)])
    if k:
        S.assume(c[-1] != 0)
    return Polynomial(tuple(c)), c


def ev(c, x):
    r = F(0)
    for a in reversed(c):
        r = r * x + a
    return r


def canonical(S, P):
    c = P.coefficients
    S.check(len(c) == 0 or c[-1] != 0, "leading coefficient is non-zero")
    S.check(Iff(bool(P.is_zero()), len(c) == 0), "is_zero")
    S.check(P.degree() == (len(c) - 1 if len(c) else float("-inf")), "degree")


def h_ring(S, m, n, op):
    P, p = mk(S, "p", m)
    Q, q = mk(S, "q", n)
    if op == "+":
        R, f = P + Q, lambda u, v: u + v
    elif op == "-":
        R, f = P - Q, lambda u, v: u - v
    else:
        R, f = P * Q, lambda u, v: u * v
    x = S.real("x")
    S.check(ev(R.coefficients, x) == f(ev(p, x), ev(q, x)), f"({op}) evaluates like the operands")
    canonical(S, R)
    S.check(And(P.coefficients == tuple(p), Q.coefficients == tuple(q)), "operands unchanged")
    if op == "-":
        S.check((R + Q) == P, "(P - Q) + Q == P")
    if op == "*" and m and n:
        S.check(R.degree() == m + n - 2, "degrees add")
    S.cover("any")
    S.observe("R", list(R.coefficients))


def h_self(S, n, op):
    """The same object as both operands."""
    P, p = mk(S, "p", n)
    x = S.real("x")
    R = P + P if op == "+" else P - P if op == "-" else P * P
    v = ev(p, x)
    S.check(ev(R.coefficients, x) == (2 * v if op == "+" else F(0) if op == "-" else v * v), f"({op}) evaluates like the operands")
    canonical(S, R)
    S.check(P.coefficients == tuple(p), "operands unchanged")
    S.check(bool(P == P), "equal to itself")
    S.observe("R", list(R.coefficients))


def h_eq(S, m, n):
    P, p = mk(S, "p", m)
    Q, q = mk(S, "q", n)
    e = bool(P == Q)
    same = And([u == v for u, v in zip(p, q)]) if m == n else False
    S.check(Iff(e, same), "equality iff the same polynomial")


def h_reject(S):
    a = S.real("a")
    try:
        Polynomial((a, F(0)))
    except ValueError:
        S.cover("rejected")
        return
    S.fail("a zero leading coefficient is rejected")


def h_show(S, n):
    P, p = mk(S, "p", n)
    s = P.to_str("x")
    r = parse_poly(s, "x")
    if r is None:
        S.fail("the text reads back")
        return
    S.check(And([r.get(i, F(0)) == p[i] for i in range(n)], all(d < n for d in r if not (d == 0))),
            "the text reads back as the same polynomial")
    S.cover("shown")


def h_linear(S, n):
    vs = ["x", "y", "z", "w"][:n]
    c = S.reals([f"c{i}" for i in range(n + 1)])
    s = Str_Helper.format(c, vs)
    got = [F(0)] * (n + 1)
    # parse sign, number, variable
    import re
    from checks.common import NUM, number
    rx = re.compile(r"\s*([+-])?\s*(" + NUM + r")?\s*([xyzw])?")
    pos = 0
    # every rendered number is an absolute value after a sign, except the constant term
    while pos < len(s):
        m = rx.match(s, pos)
        if m.end() == pos or (m.group(2) is None and m.group(3) is None):
            S.fail("the text reads back")
            return
        v = number(m.group(2)) if m.group(2) else F(1)
        if m.group(1) == "-":
            v = -v
        i = 0 if m.group(3) is None else 1 + vs.index(m.group(3))
        got[i] = got[i] + v
        pos = m.end()
    S.check(And([u == v for u, v in zip(got, c)]), "the text reads back as the same expression")


def h_divide(S, m, n):
    P, p = mk(S, "p", m)
    Q, q = mk(S, "q", n)
    S.expect_exc("KF-poly-divide", (ValueError, TypeError))
    R = P.divide(Q)
    x = S.real("x")
    S.assume(ev(q, x) != 0)
    S.check(R is not None, "a quotient")


HARNESSES = {"ring": h_ring, "self": h_self, "eq": h_eq, "reject": h_reject, "show": h_show, "linear": h_linear,
             "divide": h_divide}


def tasks(tier):
    N = 4 if tier == "quick" else 6
    out = [{"h": "ring", "cfg": {"m": m, "n": n, "op": op}} for m in range(N + 1) for n in range(N + 1) for op in "+-*"]
    out += [{"h": "self", "cfg": {"n": n, "op": op}} for n in range(N + 1) for op in "+-*"]
    out += [{"h": "eq", "cfg": {"m": m, "n": n}} for m in range(4) for n in range(4)]
    out += [{"h": "reject"}, {"h": "divide", "cfg": {"m": 2, "n": 2}}]
    out += [{"h": "show", "cfg": {"n": n}} for n in range(N + 2)]
    out += [{"h": "linear", "cfg": {"n": n}} for n in range(1, 5)]
    return out
