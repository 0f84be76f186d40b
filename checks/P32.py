"""The bound on prime gaps in square mean computed from zero density and energy estimates."""
import builtins
import re

from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from checks.common import value, horner, number, NUM
from functions import Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import prime_gap as PG
import zero_density_energy_estimate as ZE
import zero_density_estimate as ZD

BOUNDS = ("one or two zero density and energy estimates: constants and energy bounds (c - d sigma)/(1 - sigma) with up to 2 arbitrary coefficients, "
          "or an arbitrary break point; every sigma in [1/2, 1)")
ASSUMPTIONS = ["the energy bound exceeds the density bound by a positive factor on the range (alpha has no pole)",
               "stationary points are rational or square roots (at the nested radicals of a quartic float() may fail on a complex residue)",
               "the printed numbers are read before they are rounded to floating point (the replay allows 1e-9)"]


LINE = re.compile(r"^[\[(](" + NUM + r"), *(" + NUM + r")[\])] +(-?(?:" + NUM + r"|[-+.\de]+))(?: |$)")


def record(S, H):
    """Run the computation, returning the printed (lower end, upper end, supremum)."""
    out = []

    def show(*a, sep=" ", end="\n", **k):
        # read off the printed text, however it is put together
        m = LINE.match(sep.join(map(str, a)))
        if m:
            v = m.group(3)
            out.append((number(m.group(1)), number(m.group(2)), -number(v[1:]) if v.startswith("-") else number(v)))
    keep = builtins.print
    builtins.print = show
    if S.sym:
        PG.float = lambda v: value(v)
    elif hasattr(PG, "float"):
        del PG.float
    try:
        PG.compute_gap2(H)
    finally:
        builtins.print = keep
    return out


def h_gap(S, A, B, doms, tight=False):
    """A, B: one numerator/denominator per range of doms ('?' is arbitrary)."""
    hyp.begin_any(S)
    x = S.real("x")
    ends = [S.real(f"e{i}", lo=F(1, 2), hi=1) if d == "?" else F(d) for i, d in enumerate(doms)]
    S.assume(And([a < b for a, b in zip(ends, ends[1:])] + [ends[0] < x, x < ends[-1]] + [x != e for e in ends]))
    mk = lambda spec, t: [[S.real(f"{t}{n}{j}", lo=-60, hi=60) if c == "?" else F(c) for j, c in enumerate(p)] for n, p in zip("nd", spec or [])]
    a = [mk(s, f"a{i}") for i, s in enumerate(A)]
    b = [mk(s, f"b{i}") for i, s in enumerate(B)]
    ref = Reference.make("X", 2000)
    H = Hypothesis_Set()
    for i in range(len(A)):
        # no density estimate of its own: that of the range before goes on
        a[i] = a[i] if A[i] else a[i - 1]
        b[i] = b[i] if B[i] else b[i - 1]
    for i, (lo, hi) in enumerate(zip(ends, ends[1:])):
        # on the closed range: denominators positive, A > 0, and B - A > 0 after clearing denominators (they are affine or constant times the factor 1 - sigma)
        for t in (lo, hi):
            S.assume(And(horner(a[i][0], t) > 0, horner(a[i][1], t) > 0))
            S.assume(horner(b[i][0], t) * horner(a[i][1], t) - horner(a[i][0], t) * horner(b[i][1], t) > 0)
        upto = lambda spec: next((ends[j] for j in range(i + 1, len(spec)) if spec[j]), ends[-1])
        if A[i]:
            I = Interval(lo, upto(A), True, False)
            H.add_hypothesis(Hypothesis("zd", "Zero density estimate", ZD.Zero_Density_Estimate.from_rational_func(RF(list(a[i][0]), list(a[i][1])), I), "p", ref))
        if B[i]:
            I = Interval(lo, upto(B), True, False)
            H.add_hypothesis(Hypothesis("ze", "Zero density energy estimate", ZE.Zero_Density_Energy_Estimate.from_rational_func(RF(list(b[i][0]), list(b[i][1])), I), "p", ref))
    out = record(S, H)
    tol = F(0) if S.sym else F(1, 10 ** 9)
    covered = []
    for p0, p1, v in out:
        inside = And(p0 < x, x < p1)
        covered.append(And(p0 <= x, x <= p1))
        for i, (lo, hi) in enumerate(zip(ends, ends[1:])):
            nested = bool(And(lo <= p0, p1 <= hi))
            here = And(inside, lo < x, x < hi)

            def terms(t):
                An, Ad, Bn, Bd = horner(a[i][0], t), horner(a[i][1], t), horner(b[i][0], t), horner(b[i][1], t)
                # (B (1 - t) - 1) as a quotient; alpha and beta as quotients with positive denominators
                M = Bn * (1 - t) - Bd
                return ((4 * t - 2) * (Bn * Ad - An * Bd) + 2 * M * Ad, Bn * Ad - An * Bd), ((4 * t - 2) * Bd * An + M * Ad, Bd * An)
            (p, q), (r, s) = terms(x)
            S.check(Implies(here, (v + tol) * q >= p), "the supremum is at least alpha")
            S.check(Implies(here, (v + tol) * s >= r), "the supremum is at least beta")
            if tight and nested:
                # affine alpha and beta: the supremum is attained at an end point
                S.check(Or([(v - tol) * d <= n for t in (p0, p1) for n, d in terms(t)]), "the supremum is attained")
    S.check(Or(covered), "every sigma is covered")


HARNESSES = {"gap": h_gap}


def tasks(tier):
    c, e = [["?"], [1]], [[-7, "?"], [-1, 1]]
    k = lambda a: [[a], [1]]
    hux, hb = [[3], [3, -1]], [[12], [4, -1]]
    o = [({"A": [c], "B": [c], "doms": ["1/2", "1"], "tight": True}, 1), ({"A": [k(2)] * 2, "B": [k(6), c], "doms": ["1/2", "?", "1"], "tight": True}, 3),
         ({"A": [k(2), c], "B": [c, k(7)], "doms": ["1/2", "3/4", "1"], "tight": True}, 3),
         ({"A": [[[3], [-1, 2]], hux], "B": [c, hb], "doms": ["1/2", "3/4", "1"]}, 3), ({"A": [k("30/13"), hux], "B": [e, hb], "doms": ["1/2", "3/4", "1"]}, 5)]
    # the energy bound changes where the density bound does not, and the other way round
    o += [({"A": [k(2), None], "B": [c, k(7)], "doms": ["1/2", "3/4", "1"], "tight": True}, 3), ({"A": [k(2), None], "B": [k(7), c], "doms": ["1/2", "3/4", "1"], "tight": True}, 3),
          ({"A": [k(2), c], "B": [k(6), None], "doms": ["1/2", "?", "1"], "tight": True}, 3)]
    # beta has a maximum inside the range and alpha has none there
    o += [({"A": [[[3], [3, -1]]], "B": [[["?"], [1]]], "doms": ["1/2", "1"]}, 3)]
    return [{"h": "gap", "cfg": k, "budget": 350 if tier == "quick" else 1500, "weight": w} for k, w in o]
