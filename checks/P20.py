"""Bounds on mu: elementary rules, the best bound, the piecewise bound, proofs."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from hypotheses import Hypothesis_Set
from reference import Reference
from functions import Interval
import bound_mu as MU
import exponent_pair as EP

BOUNDS = ("rules: arbitrary bounds and parameters; best and piecewise bound: sets of 0-2 bounds on mu (one arbitrary, or two with arbitrary values) and 0-2 exponent pairs (one arbitrary), "
          "every sigma, intervals with one or two arbitrary end points; both iteration orders of sets")
ASSUMPTIONS = ["given bounds on mu are for 1/2 <= sigma <= 1 and at least 0 (bounds left of 1/2 are not reflected by the library, so they are outside the completeness claim)",
               "the convex hull of the known points is exact (stand-in; replayed on the real library)"]


def pt(h):
    return h.data.sigma, h.data.mu


def h_rules(S, which):
    hyp.begin_any(S)
    if which == "trivial":
        s = S.real("s")
        v = MU.trivial_mu_bound(s)
        S.check(And(Implies(s <= 0, v == F(1, 2) - s), Implies(s >= 1, v == 0), Implies(And(s >= 0, s <= 1), v == (1 - s) / 2)), "trivial bound")
        h = MU.apply_trivial_mu_bound(s)
        S.check(And(h.data.sigma == s, h.data.mu == v), "as a hypothesis")
        S.check(h.hypothesis_type == "Upper bound on mu" and len(h.dependencies) == 0, "needs nothing")
    elif which == "functional":
        s, m = S.reals("s m")
        y = S.real("y", lo=1900, hi=2020)
        b = hyp.mu(s, m, Reference.make("X", y))
        r = MU.apply_functional_equation(b)
        S.check(And(r.data.sigma == 1 - s, r.data.mu == m + s - F(1, 2)), "functional equation")
        S.check(list(r.dependencies) == [b] and r.hypothesis_type == "Upper bound on mu", "rests on the given bound")
        S.check(r.reference.year() == y, "dated like the given bound")
        q = MU.apply_functional_equation(r)
        S.check(And(q.data.sigma == s, q.data.mu == m), "applied twice it is the identity")
        S.check(And(b.data.sigma == s, b.data.mu == m), "the given bound is unchanged")
    elif which == "convexity":
        s1, m1, s2, m2 = S.reals("s1 m1 s2 m2")
        y = S.real("y", lo=1900, hi=2020)
        t = S.real("t", lo=0, hi=1)
        a, b = hyp.mu(s1, m1, Reference.make("X", y)), hyp.mu(s2, m2, Reference.make("Y", F(1960)))
        r = MU.apply_mu_convexity(a, b, t)
        S.check(And(r.data.sigma == s1 + t * (s2 - s1), r.data.mu == m1 + t * (m2 - m1)), "a point of the segment")
        S.check(len(r.dependencies) == 2 and all(any(d is x for x in (a, b)) for d in r.dependencies), "rests on both bounds")
        S.check(And(Implies(y >= 1960, r.reference.year() == y), Implies(y <= 1960, r.reference.year() == 1960)), "dated by the later bound")
    else:
        k, l = S.reals("k l")
        p = hyp.ep(k, l)
        r = MU.obtain_mu_bound_from_exponent_pair(p)
        S.check(And(r.data.sigma == l - k, r.data.mu == k), "mu(l - k) <= k")
        S.check(list(r.dependencies) == [p], "rests on the pair")


def build(S, mus, eps):
    """(hypotheses, implied points); entries None are arbitrary."""
    hs, pts = [], [(F(1), F(0)), (F(0), F(1, 2))]
    for i, (s, m) in enumerate(mus):
        s = S.real(f"s{i}", lo=F(1, 2), hi=1) if s is None else F(s)
        m = S.real(f"m{i}", lo=0, hi=1) if m is None else F(m)
        hs.append(hyp.mu(s, m, hyp.REF[i % 3]))
        pts += [(s, m), (1 - s, m + s - F(1, 2))]
    for i, (k, l) in enumerate(eps):
        k = S.real(f"k{i}", lo=0, hi=F(1, 2)) if k is None else F(k)
        l = S.real(f"l{i}", lo=F(1, 2), hi=1) if l is None else F(l)
        S.assume(l - k >= F(1, 2))
        hs.append(hyp.ep(k, l, hyp.REF[i % 3]))
        pts += [(l - k, k), (1 - l + k, l - F(1, 2))]
    return hs, pts


def envelope(pts, x, v):
    low, eq = [], []
    for i, (s, m) in enumerate(pts):
        low.append(Implies(s == x, v <= m))
        eq.append(And(s == x, v == m))
        for (s2, m2) in pts:
            br = And(s < x, x < s2)
            c = m * (s2 - x) + m2 * (x - s)
            low.append(Implies(br, v * (s2 - s) <= c))
            eq.append(And(br, v * (s2 - s) == c))
    return And(And(low), Or(eq))


def valid(S, h, given, depth=0):
    """Every step of the proof of a bound on mu is one of the elementary rules."""
    if any(h is g for g in given):
        return
    s, m = h.data.sigma, h.data.mu
    ds = list(h.dependencies)
    S.check(depth < 6 and len(ds) <= 2, "proof steps are elementary")
    if not ds:
        S.check(Or(And(s <= 0, m == F(1, 2) - s), And(s >= 1, m == 0), And(s >= 0, s <= 1, m == (1 - s) / 2)), "what needs nothing is the trivial bound")
    elif len(ds) == 1 and ds[0].hypothesis_type == "Exponent pair":
        S.check(And(s == ds[0].data.l - ds[0].data.k, m == ds[0].data.k), "from an exponent pair")
        S.check(any(ds[0] is g for g in given), "of the set")
        return
    elif len(ds) == 1:
        a = ds[0].data
        S.check(Or(And(s == 1 - a.sigma, m == a.mu + a.sigma - F(1, 2)), And(s == a.sigma, m == a.mu)), "functional equation")
    else:
        a, b = ds[0].data, ds[1].data
        S.check(And((s - a.sigma) * (b.mu - a.mu) == (m - a.mu) * (b.sigma - a.sigma), (s - a.sigma) * (s - b.sigma) <= 0, (m - a.mu) * (m - b.mu) <= 0), "convexity")
    for d in ds:
        valid(S, d, given, depth + 1)


def h_best(S, mus, eps, sig):
    hyp.begin_any(S)
    hs, pts = build(S, mus, eps)
    H = Hypothesis_Set(hs)
    x = S.real("x", lo=-1, hi=2) if sig is None else F(sig)
    r = MU.best_mu_bound(x, H)
    v = r.data.mu
    S.check(r.data.sigma == x, "the bound is at the requested point")
    S.check(Implies(x <= 0, v == F(1, 2) - x), "left of the strip")
    S.check(Implies(x >= 1, v == 0), "right of the strip")
    S.check(Implies(And(x > 0, x < 1), envelope(pts, x, v)), "the best consequence of the given bounds, the functional equation and convexity")
    valid(S, r, hs)
    S.check(len(H) == len(hs), "the set is unchanged")
    S.cover("convexity", len(r.dependencies) > 0 or not hs)


def h_piece(S, mus, eps, lo, hi):
    hyp.begin_any(S)
    hs, pts = build(S, mus, eps)
    H = Hypothesis_Set(hs)
    a = S.real("a", lo=0, hi=1) if lo is None else F(lo)
    b = S.real("b", lo=0, hi=1) if hi is None else F(hi)
    S.assume(a < b)
    out = MU.best_mu_bound_piecewise(Interval(a, b), H)
    x = S.real("x", lo=-2, hi=3)
    y = S.real("y")
    tup = [p for p in out if isinstance(p, tuple)]
    aff = [p for p in out if not isinstance(p, tuple)]
    inside = [And(p.domain.x0 <= x, x < p.domain.x1, p.m * x + p.c == y) for p in aff]
    dom = [And(p.domain.x0 <= x, x < p.domain.x1) for p in aff]
    for e, l, h in tup:
        S.check(e in ("-x + 1/2", "0"), "the pieces outside the strip")
        dom.append(And(l <= x, x < h))
        inside.append(And(l <= x, x < h, y == ((F(1, 2) - x) if e != "0" else F(0))))
    S.check(Iff(Or(dom), And(a <= x, x < b)), "the pieces cover exactly the interval")
    S.check(Implies(Or(inside), And(Implies(x <= 0, y == F(1, 2) - x), Implies(x >= 1, y == 0), Implies(And(x > 0, x < 1), envelope(pts, x, y)))), "each piece is the best bound")
    S.check(And([Implies(dom[i], Not(dom[j])) for i in range(len(dom)) for j in range(i)]), "pieces do not overlap")


def h_prove(S, mus, eps):
    hyp.begin_any(S)
    hs, pts = build(S, mus, eps)
    H = Hypothesis_Set(hs)
    x = S.real("x", lo=0, hi=1, lo_open=True, hi_open=True)
    v = S.real("v", lo=0, hi=1)
    best = MU.best_mu_bound(x, Hypothesis_Set(hs)).data.mu
    r = MU.prove_mu_bound(x, v, H)
    S.check(Iff(r is not False, best <= v), "proved exactly when the best bound suffices")
    if r is False:
        S.check(len(H) == len(hs), "nothing is added on failure")
    else:
        S.check(And(r.data.sigma == x, r.data.mu == best), "the proved bound")
        S.check(any(h is r for h in H) and len(H) == len(hs) + 1, "the proved bound is added")
    S.check(MU.best_mu_bound(x, H).data.mu == best, "the best bound stays the best")


def h_const(S):
    S.check(MU.bound_mu_trivial.data.sigma == 1 and MU.bound_mu_trivial.data.mu == 0, "mu(1) <= 0")
    S.check(MU.Lindelof_hypothesis.data.sigma == F(1, 2) and MU.Lindelof_hypothesis.data.mu == 0, "Lindelof: mu(1/2) <= 0")
    s, m, s2, m2 = S.reals("s m s2 m2")
    S.check(Iff(bool(MU.Bound_mu(s, m) == MU.Bound_mu(s2, m2)), And(s == s2, m == m2)), "bounds are equal exactly when both components are")


HARNESSES = {"rules": h_rules, "best": h_best, "piece": h_piece, "prove": h_prove, "const": h_const}


def tasks(tier):
    th = tier != "quick"
    H = [F(0), F(1), F(1, 2), F(1, 6), F(2, 3), F(5, 8)]
    bud = 2000 if th else 100
    o = [{"h": "rules", "cfg": {"which": w}} for w in ("trivial", "functional", "convexity", "pair")] + [{"h": "const"}]

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "hash_consts": H, "budget": bud, "weight": weight})
    N, X, HL = [], ["1/2", "1/6"], ["2/3", "1/10"]
    for mus, eps in ((N, N), ([X], N), ([[None, None]], N), ([["1/2", None]], N), ([X, [None, None]], N), (N, [[None, None]]), (N, [["1/6", "2/3"], [0, 1]]), ([X], [[None, None]]),
                     ([HL], [["1/6", "2/3"], [None, "3/4"]])):
        free = sum(v is None for p in mus + eps for v in p)
        add("best", mus=mus, eps=eps, sig=None, weight=3 + free)
        if free:
            add("best", mus=mus, eps=eps, sig="3/4", weight=3 + free)
    for mus, eps, lo, hi in ((N, N, "0", "1"), (N, N, None, None), ([X], N, None, "1"), ([X], N, "1/2", None), ([X], N, "0", "1"), ([[None, None]], N, "1/2", "1"), ([[None, None]], N, "0", "1"),
                             ([["1/2", None], ["3/4", None]], N, "1/2", "1"), (N, [[None, None]], "1/2", "1"), ([X], [["1/14", "11/14"]], None, None), ([X], N, "-1", "2"), (N, N, "-1", "-1/2"),
                             (N, N, "5/4", "2"), ([X], N, "-1", None), ([X], N, None, "3/2"), ([X], N, "1", "2"), ([X], N, "-1", "0")):
        free = sum(v is None for p in mus + eps for v in p)
        add("piece", mus=mus, eps=eps, lo=lo, hi=hi, weight=3 + free)
    add("prove", mus=[X], eps=N)
    add("prove", mus=[["1/2", None]], eps=N)
    add("prove", mus=N, eps=[["1/14", "11/14"]])
    if th:
        add("best", mus=[X, [None, None]], eps=[[None, None]], sig=None, weight=7)
        add("best", mus=[[None, None], [None, None]], eps=N, sig=None, weight=7)
        add("piece", mus=[[None, None], [None, None]], eps=N, lo="1/2", hi="1", weight=7)
    return o
