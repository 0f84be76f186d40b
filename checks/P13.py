"""RationalFunction: field arithmetic, evaluation, equality, parsing, extrema."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks.common import value, horner
from functions import RationalFunction as RF, Interval

BOUNDS = ("numerators of degree <= 2 and denominators of degree <= 1 with arbitrary rational coefficients "
          "(non-zero denominator polynomial), an arbitrary evaluation point off the poles; extrema: "
          "polynomials of degree <= 2 and quotients of affine functions without a pole on an arbitrary interval")
ASSUMPTIONS = ["the evaluation point is not a pole"]


def mk(S, n, dn, dd):
    p = S.reals([f"{n}n{i}" for i in range(dn + 1)])
    if dd is None:
        return RF(p), p, [F(1)]
    q = S.reals([f"{n}d{i}" for i in range(dd + 1)])
    S.assume(Or([a != 0 for a in q]))
    return RF(p, q), p, q


def h_at(S, dn, dd):
    f, p, q = mk(S, "f", dn, dd)
    x = S.real("x")
    S.assume(horner(q, x) != 0)
    v = value(f.at(x))
    S.check(v * horner(q, x) == horner(p, x), "evaluation is numerator over denominator")
    S.observe("v", v)


def h_op(S, op, a, b):
    f, p, q = mk(S, "f", *a)
    g, r, s = mk(S, "g", *b)
    x = S.real("x")
    N1, D1, N2, D2 = horner(p, x), horner(q, x), horner(r, x), horner(s, x)
    S.assume(And(D1 != 0, D2 != 0))
    if op in ("/", "div"):
        S.assume(N2 != 0)
    h = {"+": lambda: f + g, "-": lambda: f - g, "*": lambda: f * g, "/": lambda: f / g,
         "add": lambda: f.add(g), "sub": lambda: f.subtract(g), "mul": lambda: f.mul(g), "div": lambda: f.div(g)}[op]()
    v = value(h.at(x))
    if op in ("+", "add"):
        S.check(v * D1 * D2 == N1 * D2 + N2 * D1, "sum")
    elif op in ("-", "sub"):
        S.check(v * D1 * D2 == N1 * D2 - N2 * D1, "difference")
    elif op in ("*", "mul"):
        S.check(v * D1 * D2 == N1 * N2, "product")
    else:
        S.check(v * D1 * N2 == N1 * D2, "quotient")
    S.check(value(f.at(x)) * D1 == N1, "first operand unchanged")
    S.check(value(g.at(x)) * D2 == N2, "second operand unchanged")
    S.observe("v", v)


def h_self(S, a):
    """The same object as both operands."""
    f, p, q = mk(S, "f", *a)
    x = S.real("x")
    N, D = horner(p, x), horner(q, x)
    S.assume(And(D != 0, N != 0))
    for h, n, d in ((f + f, 2 * N, D), (f.add(f), 2 * N, D), (f - f, F(0), F(1)), (f.subtract(f), F(0), F(1)), (f * f, N * N, D * D),
                    (f.mul(f), N * N, D * D), (f / f, F(1), F(1)), (f.div(f), F(1), F(1))):
        S.check(value(h.at(x)) * d == n, "an operation of a function with itself")
    S.check(bool(f == f), "equal to itself")
    S.check(value(f.at(x)) * D == N, "operand unchanged")


def h_const(S, op, a):
    f, p, q = mk(S, "f", *a)
    k, x = S.reals("k x")
    N, D = horner(p, x), horner(q, x)
    S.assume(D != 0)
    if op == "div":
        S.assume(k != 0)
    h = {"add": lambda: f.add(k), "+": lambda: f + k, "sub": lambda: f.subtract(k), "mul": lambda: f.mul(k),
         "div": lambda: f.div(k)}[op]()
    v = value(h.at(x))
    if op in ("add", "+"):
        S.check(v * D == N + k * D, "adding a number")
    elif op == "sub":
        S.check(v * D == N - k * D, "subtracting a number")
    elif op == "mul":
        S.check(v * D == N * k, "multiplying by a number")
    else:
        S.check(v * D * k == N, "dividing by a number")


def h_eq(S, a, b):
    f, p, q = mk(S, "f", *a)
    g, r, s = mk(S, "g", *b)
    e = bool(f == g)

    def mul(u, v):
        out = [F(0)] * (len(u) + len(v) - 1)
        for i, y in enumerate(u):
            for j, z in enumerate(v):
                out[i + j] = out[i + j] + y * z
        return out[::-1]
    u, v = mul(p, s), mul(r, q)
    n = max(len(u), len(v))
    u, v = u + [F(0)] * (n - len(u)), v + [F(0)] * (n - len(v))
    S.check(Iff(e, And([y == z for y, z in zip(u, v)])), "equality iff the same function")
    S.cover("equal", e)


def h_badop(S, op):
    f, p, q = mk(S, "f", 1, None)
    try:
        {"add": f.add, "sub": f.subtract, "mul": f.mul, "div": f.div}[op]("not a function")
    except (NotImplementedError, TypeError, ValueError):
        S.cover("rejected")
        return
    S.fail("an unsupported operand is refused")


EXPRS = [("3/(5*x - 3)", [3], [5, -3]), ("2", [2], [1]), ("x", [1, 0], [1]), ("(1-x)/(2*x)", [-1, 1], [2, 0]),
         ("15/(3+5*x)", [15], [5, 3]), ("3*(10*x - 7)/((4*x-3)*(5*x+1))", [30, -21], [20, -11, -3]),
         ("10/7/(2*x)", [10], [14, 0]), ("4 - 2*x", [-2, 4], [1]), ("x**2/(x-2)", [1, 0, 0], [1, -2])]


def h_parse(S):
    e, p, q = EXPRS[S.int("k", 0, len(EXPRS) - 1)]
    x = S.real("x")
    p, q = [F(a) for a in p], [F(a) for a in q]
    S.assume(horner(q, x) != 0)
    f = RF.parse(e)
    S.check(value(f.at(x)) * horner(q, x) == horner(p, x), "the parsed function is the written one")
    S.check(bool(f == RF(p, q)), "the parsed function equals the one built from coefficients")


def h_extreme(S, dn, dd, kind):
    f, p, q = mk(S, "f", dn, dd)
    lo, hi, x = S.reals("lo hi x")
    S.assume(lo < hi)
    if dd == 1:
        S.assume(Or(And(horner(q, lo) > 0, horner(q, hi) > 0), And(horner(q, lo) < 0, horner(q, hi) < 0)))
    if S.boolean("earlier"):
        # an earlier question about another interval
        (f.maximise if S.boolean("earliermax") else f.minimise)(Interval(lo - 1, hi + 1, True, True) if dd is None else Interval(lo, (lo + hi) / 2, True, True))
    I = Interval(lo, hi, True, True)
    w, v = f.maximise(I) if kind == "max" else f.minimise(I)
    w, v = value(w), value(v)
    S.assume(And(x >= lo, x <= hi))
    N, D = horner(p, x), horner(q, x)
    S.check(And(w >= lo, w <= hi), "the extremal point lies in the interval")
    S.check(v * horner(q, w) == horner(p, w), "the extremal value is attained there")
    fx = N / D if dd == 1 else N
    S.check(fx <= v if kind == "max" else fx >= v, "no point of the interval is " + ("larger" if kind == "max" else "smaller"))
    S.observe("v", v)


def h_cross(S, a, b):
    f, p, q = mk(S, "f", *a)
    g, r, s = mk(S, "g", *b)
    lo, hi, x = S.reals("lo hi x")
    S.assume(And(lo < hi, x >= lo, x <= hi))
    if S.boolean("earlier"):
        f.intersections(g, Interval(lo, (lo + hi) / 2, True, True))
    pts = [value(t) for t in f.intersections(g, Interval(lo, hi, True, True))]
    diff = lambda t: horner(p, t) * horner(s, t) - horner(r, t) * horner(q, t)
    ident = And([value(f.num.subs(RF.x, F(t)) if hasattr(f.num, "subs") else f.num) is not None and
                 diff(F(t)) == 0 for t in range(4)])
    for t in pts:
        S.check(And(t >= lo, t <= hi, diff(t) == 0), "each reported point is a crossing in the interval")
    S.check(Implies(And(diff(x) == 0, Not(ident)), Or([x == t for t in pts])), "every crossing is reported")


HARNESSES = {"self": h_self, "at": h_at, "op": h_op, "const": h_const, "eq": h_eq, "badop": h_badop, "parse": h_parse,
             "extreme": h_extreme, "cross": h_cross}


def tasks(tier):
    out = [{"h": "at", "cfg": {"dn": n, "dd": d}} for n in range(3) for d in (None, 0, 1, 2)]
    sh = [(1, None), (1, 1), (2, 1)]
    for op in ("+", "-", "*", "/", "add", "sub", "mul", "div"):
        out += [{"h": "op", "cfg": {"op": op, "a": a, "b": b}} for a in sh for b in ((0, None), (1, None), (1, 1))]
    out += [{"h": "self", "cfg": {"a": a}} for a in sh]
    out += [{"h": "const", "cfg": {"op": op, "a": a}} for op in ("+", "add", "sub", "mul", "div") for a in sh]
    out += [{"h": "eq", "cfg": {"a": a, "b": b}} for a in ((1, None), (1, 1), (0, 1)) for b in ((1, None), (1, 1), (0, 1))]
    out += [{"h": "badop", "cfg": {"op": op}} for op in ("add", "sub", "mul", "div")]
    out += [{"h": "parse"}]
    out += [{"h": "extreme", "cfg": {"dn": n, "dd": d, "kind": k}} for n, d in ((1, None), (2, None), (1, 1)) for k in ("max", "min")]
    out += [{"h": "cross", "cfg": {"a": a, "b": b}} for a, b in (((1, None), (1, None)), ((2, None), (1, None)), ((0, 1), (1, None)), ((0, 1), (0, 1)))]
    return out
