"""Proofs of exponent pairs: convexity proofs, and the search for the earliest or shortest proof."""
from itertools import combinations
from symx import engine as E
from symx.hull import hull_indices
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from checks.P17 import FML, TR, cross, between, same, kl
from hypotheses import Hypothesis_Set
from constants import Proof_Optimization_Method
from reference import Reference
import exponent_pair as EP

BOUNDS = ("convexity proofs: sets of 1-4 pairs (one arbitrary, the others fixed) and every target; proof search: sets of 1-3 pairs with arbitrary years, transforms "
          "A and B, one bound on beta, and every target; both iteration orders of sets")
ASSUMPTIONS = ["pairs lie in the triangle of possible exponent pairs", "the earliest / shortest proof is taken among those the documented search considers "
               "(transforms applied up to five times, then convexity)"]


def intri(a, b, c, p):
    d = cross(a, b, c)
    e = [cross(a, b, p), cross(b, c, p), cross(c, a, p)]
    return Or(And(d > 0, [x >= 0 for x in e]), And(d < 0, [x <= 0 for x in e]),
              between(p, a, b), between(p, b, c), between(p, c, a))


def inhull(P, p):
    if len(P) == 0:
        return And(p[0] != p[0])
    if len(P) == 1:
        return same(P[0], p)
    if len(P) == 2:
        return between(p, *P)
    if all(E.as_exact(x) is not None and not isinstance(x, E.SNum) for q in P for x in q):
        v = [P[i] for i in hull_indices(P)]
        if len(v) > 2:
            return And([cross(a, b, p) >= 0 for a, b in zip(v, v[1:] + v[:1])])
        return inhull(v, p)
    return Or([intri(a, b, c, p) for a, b, c in combinations(P, 3)])


def h_triangle(S, flat):
    V = [S.reals(f"a{i} b{i}") for i in range(3)]
    p = S.reals("p q")
    if flat == "line":
        t = S.real("t")
        V[2] = (V[0][0] + t * (V[1][0] - V[0][0]), V[0][1] + t * (V[1][1] - V[0][1]))
    elif flat:
        S.assume(And(V[0][0] == 0, V[0][1] == 0))
        if flat == "deg":
            V[1] = V[0]
    S.check(Iff(bool(EP.in_triangle(*V, p)), intri(*V, p)), "in_triangle decides membership in the triangle")


def target(S):
    k = S.real("k", lo=0, hi=F(1, 2))
    l = S.real("l", lo=F(1, 2), hi=1)
    return k, l


def h_convex(S, base, arb, reduce, deep, cplx):
    hyp.begin_any(S)
    P = [(F(a), F(b)) for a, b in base]
    if arb == "pair":
        k0 = S.real("k0", lo=0, hi=F(1, 2))
        P.append((k0, S.real("l0", lo=F(1, 2), hi=1)))
    elif arb == "seg":
        k0 = S.real("k0", lo=0, hi=F(1, 3))
        P.append((k0, 1 - k0 - k0 * F(1, 2)))
    src = [hyp.ep(*p, hyp.REF[i % 3], name=f"pair{i}") for i, p in enumerate(P)]
    size = [1] * len(src)
    if cplx:
        for i, h in enumerate(src):
            n = S.choice(f"deps{i}", (0, 2))
            for j in range(n):
                h.add_dependency(hyp.ep(F(0), F(1), name=f"dep{i}{j}"))
            size[i] += n
    H = Hypothesis_Set(src + [TR["A"]])
    t = target(S)
    r = EP.construct_proof(*t, H, reduce_dependencies=reduce, deep_search=deep)
    if r is None:
        S.check(Not(inhull(P, t)), "no proof only outside the convex hull")
        S.cover("outside")
        return
    S.check(inhull(P, t), "a proof only inside the convex hull")
    S.check(same(kl(r), t), "the proof is of the requested pair")
    if any(r is h for h in src):
        return
    S.cover("convexity")
    ds = list(r.dependencies)
    S.check(r.hypothesis_type == "Exponent pair" and all(any(d is h for h in src) for d in ds), "it rests on pairs of the set")
    S.check(inhull([kl(d) for d in ds], t), "it lies in the convex hull of the pairs it rests on")
    ys = [d.reference.year() for d in ds]
    S.check(len(ds) > 0 and r.reference.year() == max(ys), "dated by the latest pair")
    if reduce:
        S.check(len(ds) <= 3, "at most three pairs are needed")
        comp = sum(size[i] for i in range(len(src)) if any(d is src[i] for d in ds))
        idx = [i for i in range(len(src))] if deep else [i for i in range(len(src)) if any(src[i] is h for h in EP.compute_convex_hull(H))]
        for tri in combinations(idx, 3):
            c = sum(size[i] for i in tri)
            if c < comp:
                S.check(Not(intri(*[P[i] for i in tri], t)), "no triangle of simpler pairs contains it")


def valid(S, h, given, seen, label):
    """h is proved by its dependencies, down to the given hypotheses."""
    if any(h is g for g in given) or any(h is s for s in seen):
        return
    seen.append(h)
    ds = list(h.dependencies)
    ps = [d for d in ds if d.hypothesis_type == "Exponent pair"]
    ts = [d for d in ds if d.hypothesis_type == "Exponent pair transform"]
    bs = [d for d in ds if d.hypothesis_type == "Upper bound on beta"]
    S.check(len(ds) > 0 and len(ps) + len(ts) + len(bs) == len(ds), label + ": every derived step has dependencies")
    if h.hypothesis_type == "Upper bound on beta":
        S.check(len(ds) == 1 and len(bs) == 1, label + ": a restricted bound on beta rests on one bound")
        if len(bs) == 1:
            f, g = h.data.bound, bs[0].data.bound
            S.check(And(f.m == g.m, f.c == g.c, f.domain.x0 >= g.domain.x0, f.domain.x1 <= g.domain.x1), label + ": and is a part of it")
    elif len(ts) == 1 and len(ps) == 1 and len(ds) == 2:
        t = [t for t in "ABC" if TR[t] is ts[0]]
        S.check(len(t) == 1 and any(ts[0] is g for g in given), label + ": the transform is assumed")
        if t:
            S.check(same(kl(h), FML(t[0], *kl(ps[0]))), label + ": the transform is applied correctly")
    elif len(bs) == len(ds):
        x = S.real("alpha", lo=0, hi=F(1, 2))
        k, l = kl(h)
        S.check(Or([And(d.data.bound.domain.x0 <= x, x <= d.data.bound.domain.x1, d.data.bound.m * x + d.data.bound.c <= k + (l - k) * x) for d in bs]),
                label + ": the bounds on beta imply the pair")
    else:
        S.check(len(ps) == len(ds), label + ": convexity uses exponent pairs")
        S.check(inhull([kl(p) for p in ps], kl(h)), label + ": the pair is in the hull of its dependencies")
    for d in ds:
        valid(S, d, given, seen, label)


_MEMO = {}


def closure(given, depth=5):
    """Pairs (all concrete) reached from the given hypotheses."""
    key = (depth, hyp._N[1], tuple(sorted((h.name, repr(h.data)) for h in given)))
    if key not in _MEMO:
        H = Hypothesis_Set(given)
        H.add_hypotheses(EP.beta_bounds_to_exponent_pairs(H))
        _MEMO[key] = [kl(h) for h in EP.compute_exp_pairs(H, search_depth=depth)]
    return _MEMO[key]


def h_search(S, base, trs, method, years, beta, arb=False, conj=False):
    hyp.begin_any(S)
    ys = [S.real(f"y{i}", lo=1900, hi=2020) if years else F(1950 + i) for i in range(len(base))]
    src = [hyp.ep(F(a), F(b), Reference.make(f"X{i}", ys[i])) for i, (a, b) in enumerate(base)]
    given = src + [TR[t] for t in trs]
    if beta:
        given.append(hyp.beta(F(1, 2), F(1, 7), F(0), F(1, 2), Reference.make("Y", F(1970))))
    if conj:
        given.append(EP.exponent_pair_conjecture)
    H = Hypothesis_Set(given)
    n = len(H)
    t = target(S)
    full = closure(given)
    if method == "COMPLEXITY":
        S.assume(inhull(closure(given, 1), t))
    m = {"DATE": Proof_Optimization_Method.DATE, "COMPLEXITY": Proof_Optimization_Method.COMPLEXITY, "NONE": Proof_Optimization_Method.NONE}[method]
    r = EP.find_best_proof(*t, H, m)
    S.check(len(H) == n, "the given hypotheses are unchanged")
    if r is None:
        S.check(Not(inhull(full, t)), "no proof only if the pair does not follow")
        return
    S.cover("proof")
    S.check(inhull(full, t), "a proof only if the pair follows")
    S.check(same(kl(r), t), "the proof is of the requested pair")
    valid(S, r, given, [], "proof tree")
    if method == "DATE":
        d = r.proof_date()
        ally = []
        for h in given:
            y = h.reference.year()
            if bool(y < d) and not any(bool(y == z) for z in ally):
                ally.append(y)
        for y in ally:
            early = [h for h in given if bool(h.reference.year() <= y)]
            S.check(Not(inhull(closure(early), t)), "no proof with earlier hypotheses")


HARNESSES = {"triangle": h_triangle, "convex": h_convex, "search": h_search}

T = (0, 1)
HF = ("1/2", "1/2")
W = ("1/6", "2/3")
V = ("2/7", "4/7")


def tasks(tier):
    th = tier != "quick"
    H = [F(0), F(1), F(1, 2), F(1, 6), F(2, 3), F(2, 7), F(4, 7)]
    bud = 2500 if th else 120
    o = [{"h": "triangle", "cfg": {"flat": f}, "budget": 200, "weight": 3} for f in ("origin", "line", "deg")]

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "hash_consts": H, "budget": bud, "weight": weight})
    for base, arb in (([], "no"), ([T], "no"), ([T, HF], "no"), ([T], "pair"), ([T, HF, W], "no"), ([T, HF, ("1/4", "3/4")], "no"), ([W, T, V, HF], "no"), ([T, HF], "seg")):
        for reduce, deep in ((True, True), (True, False), (False, False)):
            add("convex", base=base, arb=arb, reduce=reduce, deep=deep, cplx=False)
    for deep in (True, False):
        add("convex", base=[W, T, V, HF], arb="no", reduce=True, deep=deep, cplx=True, weight=5)
        add("convex", base=[T, HF, W], arb="seg", reduce=True, deep=deep, cplx=False, weight=5)
    if th:
        for base, arb in (([T, HF], "pair"), ([T, HF, W], "pair"), ([W, T, V, HF], "seg")):
            for deep in (True, False):
                add("convex", base=base, arb=arb, reduce=True, deep=deep, cplx=True, weight=7)
    add("search", base=[T], trs="AB", method="NONE", years=False, beta=False)
    add("search", base=[T, W], trs="B", method="NONE", years=False, beta=True)
    add("search", base=[HF], trs="A", method="DATE", years=True, beta=False)
    add("search", base=[T, HF, W], trs="", method="DATE", years=True, beta=False)
    add("search", base=[T, HF], trs="B", method="DATE", years=True, beta=True)
    add("search", base=[T, HF], trs="", method="DATE", years=True, beta=False, conj=True)
    add("search", base=[HF, W], trs="B", method="DATE", years=True, beta=False)
    add("search", base=[T], trs="AB", method="COMPLEXITY", years=False, beta=False)
    add("search", base=[T, W], trs="B", method="COMPLEXITY", years=False, beta=True)
    if th:
        add("search", base=[T, W], trs="A", method="DATE", years=True, beta=False)
        add("search", base=[T], trs="AB", method="DATE", years=True, beta=False)
        add("search", base=[T, HF, W], trs="AB", method="DATE", years=True, beta=True, weight=7)
        add("search", base=[T, HF, V], trs="A", method="DATE", years=True, beta=True, weight=7)
    return o
