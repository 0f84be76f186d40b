"""Interval algebra: membership, intersection, emptiness, equality, parsing."""
from symx.harness import F, And, Or, Not, Implies, Iff
from functions import Interval

BOUNDS = ("one or two intervals with arbitrary rational end points (x0 <= x1) and all four "
          "open/closed combinations each, one arbitrary rational point; string parsing: concrete "
          "rational literals in 8 spacings/bracket forms")
ASSUMPTIONS = ["end points are finite rationals"]


def member(x, lo, hi, a, b):
    return And(x >= lo if a else x > lo, x <= hi if b else x < hi)


def mk(S, n):
    lo, hi = S.reals(f"{n}lo {n}hi")
    S.assume(lo <= hi)
    a, b = S.boolean(n + "il"), S.boolean(n + "iu")
    return Interval(lo, hi, a, b), lo, hi, a, b


def h_single(S):
    I, lo, hi, a, b = mk(S, "p")
    x = S.real("x")
    m = member(x, lo, hi, a, b)
    c = bool(I.contains(x))
    S.check(Iff(c, m), "contains agrees with the set")
    e = bool(I.is_empty())
    empty = And(lo == hi, not (a and b))
    S.check(Iff(e, empty), "is_empty iff no point")
    S.check(Implies(e, Not(m)), "empty interval contains nothing")
    S.check(I.length() == hi - lo, "length")
    S.check(I.midpoint() * 2 == lo + hi, "midpoint")
    S.cover("empty", e)
    S.cover("member", And(m))
    K = I.intersect(I)
    S.check(And(bool(K == I), bool(I == I), Iff(bool(K.contains(x)), m)), "an interval meets itself in itself")
    d = I.deep_copy()
    S.check(And(d.x0 == lo, d.x1 == hi, d.include_lower == a, d.include_upper == b), "deep copy")
    S.observe("c", c)
    S.observe("e", e)


def h_reject(S):
    lo, hi = S.reals("lo hi")
    S.assume(lo > hi)
    try:
        Interval(lo, hi, S.boolean("a"), S.boolean("b"))
    except ValueError:
        S.cover("rejected")
        return
    S.fail("reversed end points are rejected")


def h_pair(S):
    I, lo, hi, a, b = mk(S, "p")
    J, lo2, hi2, a2, b2 = mk(S, "q")
    x = S.real("x")
    m = And(member(x, lo, hi, a, b), member(x, lo2, hi2, a2, b2))
    K = I.intersect(J)
    c = bool(K.contains(x))
    S.check(Iff(c, m), "intersection is the set intersection")
    S.check(And(I.x0 == lo, I.x1 == hi, J.x0 == lo2, J.x1 == hi2), "operands unchanged")
    S.cover("member", And(m))
    S.cover("disjoint", K.is_empty())
    S.observe("K", [c, K.is_empty()])


def h_eq(S):
    I, lo, hi, a, b = mk(S, "p")
    J, lo2, hi2, a2, b2 = mk(S, "q")
    e = bool(I == J)
    e1 = And(lo == hi, not (a and b))
    e2 = And(lo2 == hi2, not (a2 and b2))
    same = Or(And(e1, e2), And(Not(e1), Not(e2), lo == lo2, hi == hi2, a == a2, b == b2))
    S.check(Iff(e, same), "equality iff the same set of points")
    S.observe("e", e)


PARSE = [("[1/2, 3/4)", F(1, 2), F(3, 4), True, False), ("(0,1]", F(0), F(1), False, True),
         ("[ 5/7 ,1 ]", F(5, 7), F(1), True, True), ("( -1/3 , 2 )", F(-1, 3), F(2), False, False),
         ("[0.25,0.5]", F(1, 4), F(1, 2), True, True), ("[3/4,3/4]", F(3, 4), F(3, 4), True, True),
         ("[-2,-1)", F(-2), F(-1), True, False), ("(7/10,4/5)", F(7, 10), F(4, 5), False, False)]


def h_parse(S):
    k = S.int("k", 0, len(PARSE) - 1)
    s, lo, hi, a, b = PARSE[k]
    x = S.real("x")
    for I in (Interval(s), Interval.parse(s)):
        S.check(Iff(bool(I.contains(x)), member(x, lo, hi, a, b)), "parsed interval is the written set")


HARNESSES = {"single": h_single, "reject": h_reject, "pair": h_pair, "eq": h_eq, "parse": h_parse}


def tasks(tier):
    return [{"h": h, "budget": 200} for h in HARNESSES]
