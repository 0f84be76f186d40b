"""Exponent pairs: the A, B, C transforms, the search for pairs and the hull of a set of pairs."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from hypotheses import Hypothesis_Set
from reference import Reference
import exponent_pair as EP
import literature as L

BOUNDS = ("transforms: every pair in the triangle of possible exponent pairs; search: sets of up to 3 pairs (one arbitrary, or arbitrary on a segment) with every "
          "selection of A, B, C, depth 1-2, with and without pruning; hulls: up to 4 (thorough 5) arbitrary pairs")
ASSUMPTIONS = ["pairs lie in the triangle 0 <= k <= 1/2 <= l <= 1, k + l <= 1 of possible exponent pairs",
               "the three transforms are those of the blueprint (Props. vdc-a, vdc-b, Thm. sargos_C)"]

TR = {"A": L.A_transform_hypothesis, "B": L.B_transform_hypothesis, "C": L.C_transform_hypothesis}


def FML(t, k, l):
    if t == "A":
        return k / (2 * k + 2), l / (2 * k + 2) + F(1, 2)
    if t == "B":
        return l - F(1, 2), k + F(1, 2)
    d = 12 * (1 + 4 * k)
    return k / d, (11 * (1 + 4 * k) + l) / d


def pair(S, i="", tri=True):
    k = S.real("k" + i, lo=0, hi=F(1, 2))
    l = S.real("l" + i, lo=F(1, 2), hi=1)
    if tri:
        S.assume(k + l <= 1)
    return k, l


def same(a, b):
    return And(a[0] == b[0], a[1] == b[1])


def kl(h):
    return h.data.k, h.data.l


def h_transform(S, t):
    hyp.begin_any(S)
    k, l = pair(S)
    y = S.real("year", lo=1900, hi=2100)
    h = hyp.ep(k, l, Reference.make("X", y), "source")
    r = TR[t].data.transform(h)
    S.check(same(kl(r), FML(t, k, l)), "the transformed pair")
    S.check(And(kl(r)[0] >= 0, kl(r)[0] <= F(1, 2), kl(r)[1] >= F(1, 2), kl(r)[1] <= 1, kl(r)[0] + kl(r)[1] <= 1), "a possible exponent pair again")
    S.check(r.hypothesis_type == "Exponent pair", "type")
    S.check(len(r.dependencies) == 2 and any(d is h for d in r.dependencies) and any(d is TR[t] for d in r.dependencies), "dependencies are the pair and the transform")
    ty = TR[t].reference.year()
    S.check(And(Implies(y >= ty, r.reference.year() == y), Implies(y <= ty, r.reference.year() == ty)), "dated by the later of the two")
    S.check(And(same(kl(h), (k, l)), len(h.dependencies) == 0), "the given pair is unchanged")
    # another pair of the same name and source
    k2, l2 = F(1, 9), F(13, 18)
    h2 = hyp.ep(k2, l2, h.reference, "source")
    r2 = TR[t].data.transform(h2)
    S.check(same(kl(r2), FML(t, k2, l2)), "the transform of another pair of the same name")
    S.check(any(d is h2 for d in r2.dependencies) and not any(d is h for d in r2.dependencies), "rests on that pair")
    S.check(same(kl(r), FML(t, k, l)), "the first result is unchanged")
    if t == "B":
        S.check(same(kl(TR[t].data.transform(r)), (k, l)), "B is an involution")


def provenance(S, out, src, trs):
    for h in out:
        if any(h is s for s in src):
            continue
        d = list(h.dependencies)
        ps = [x for x in d if x.hypothesis_type == "Exponent pair"]
        ts = [x for x in d if x.hypothesis_type == "Exponent pair transform"]
        S.check(len(d) == 2 and len(ps) == 1 and len(ts) == 1, "a new pair depends on one pair and one transform")
        if len(d) == 2 and len(ps) == 1 and len(ts) == 1:
            S.check(ts[0] in [TR[t] for t in trs], "the transform is one of the assumed ones")
            t = [t for t in "ABC" if TR[t] is ts[0]][0]
            S.check(same(kl(h), FML(t, *kl(ps[0]))), "the new pair is the transform of its dependency")
            if not any(ps[0] is s for s in src):
                provenance(S, [ps[0]], src, trs)


def words(src, trs, depth):
    lev, allp = list(src), list(src)
    for _ in range(depth):
        lev = [FML(t, *p) for p in lev for t in trs]
        allp += lev
    return allp


def h_search(S, trs, depth, prune, base, seg=False):
    hyp.begin_any(S)
    if seg:
        t = S.real("t", lo=0, hi=F(1, 6))
        P = [(t, 1 - 2 * t)]
    else:
        P = [pair(S)]
    src = [hyp.ep(*p) for p in P] + [hyp.ep(F(a), F(b)) for a, b in base]
    H = Hypothesis_Set(src + [TR[t] for t in trs])
    n = len(H)
    out = EP.compute_exp_pairs(H, search_depth=depth, prune=prune)
    S.check(len(H) == n, "the hypothesis set is unchanged")
    provenance(S, out, src, trs)
    pts = [kl(h) for h in out]
    ws = words([kl(h) for h in src], trs, depth)
    if not prune:
        for w in ws:
            S.check(Or([same(w, p) for p in pts]), "every pair obtained with the given number of transforms is found")
        S.check(And([Not(same(pts[i], pts[j])) for i in range(len(pts)) for j in range(i)]), "no pair is listed twice")
    else:
        inside(S, pts, ws, "pruning loses nothing: every pair lies in the hull of the returned ones")
    S.cover("new", len(out) > len(src))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def between(p, a, b):
    return And(cross(a, b, p) == 0, (p[0] - a[0]) * (p[0] - b[0]) <= 0, (p[1] - a[1]) * (p[1] - b[1]) <= 0)


def inside(S, verts, pts, label):
    """Each point lies in the convex hull of `verts` (a convex polygon in either orientation, a segment or a point)."""
    from symx.hull import hull_indices
    v = [verts[i] for i in hull_indices(verts)]
    if len(v) == 1:
        ok = lambda p: same(p, v[0])
    elif len(v) == 2:
        ok = lambda p: between(p, v[0], v[1])
    else:
        e = list(zip(v, v[1:] + v[:1]))
        ok = lambda p: And([cross(a, b, p) >= 0 for a, b in e])
    for p in pts:
        S.check(ok(p), label)


def h_hull(S, n, fixed):
    hyp.begin_any(S)
    P = [(F(a), F(b)) for a, b in fixed] + [pair(S, str(i)) for i in range(n)]
    src = [hyp.ep(*p) for p in P]
    H = Hypothesis_Set(src + [hyp.mu(F(1, 2), F(1, 6))])
    out = EP.compute_convex_hull(H)
    S.check(all(any(h is s for s in src) for h in out), "the hull consists of pairs of the set")
    S.check(len({id(h) for h in out}) == len(out), "no pair twice")
    inside(S, [kl(h) for h in out], P, "every pair lies in the hull of the returned ones")
    got = EP.compute_convex_hull(H)
    S.check(len(got) == len(out) and all(a is b for a, b in zip(got, out)), "asking again gives the same hull")


def h_constants(S):
    t, c = EP.trivial_exp_pair.data, EP.exponent_pair_conjecture.data
    S.check(t.k == 0 and t.l == 1, "the trivial pair is (0, 1)")
    S.check(c.k == 0 and c.l == F(1, 2), "the exponent pair conjecture is (0, 1/2)")
    k, l = pair(S)
    S.check(EP.Exp_pair(k, l) == EP.Exp_pair(k, l), "equality")
    k2, l2 = pair(S, "2")
    S.check(Iff(bool(EP.Exp_pair(k, l) == EP.Exp_pair(k2, l2)), same((k, l), (k2, l2))), "pairs are equal exactly when both components are")


HARNESSES = {"transform": h_transform, "search": h_search, "hull": h_hull, "constants": h_constants}

TRIV = [(0, 1)]
CL = [(0, 1), ("1/2", "1/2")]


def tasks(tier):
    th = tier != "quick"
    H = [F(0), F(1), F(1, 2), F(1, 6), F(2, 3), F(1, 14), F(11, 14), F(11, 12), F(23, 24)]
    o = [{"h": "transform", "cfg": {"t": t}} for t in "ABC"] + [{"h": "constants"}]
    for trs in ("A", "B", "C", "AB", "AC", "BC", "ABC", ""):
        G = sorted({c for p in words([(F(0), F(1))], trs, len(trs)) for c in p})
        o.append({"h": "search", "cfg": {"trs": trs, "depth": 1, "prune": False, "base": TRIV, "seg": len(trs) == 3}, "hash_consts": G, "budget": 100,
                  "weight": 2})
    o.append({"h": "search", "cfg": {"trs": "AB", "depth": 2, "prune": False, "base": [], "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    o.append({"h": "search", "cfg": {"trs": "AB", "depth": 1, "prune": True, "base": TRIV, "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    o.append({"h": "search", "cfg": {"trs": "AB", "depth": 1, "prune": True, "base": CL, "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    o.append({"h": "search", "cfg": {"trs": "A", "depth": 2, "prune": True, "base": CL, "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    o.append({"h": "search", "cfg": {"trs": "A", "depth": 2, "prune": True, "base": [], "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    o.append({"h": "search", "cfg": {"trs": "C", "depth": 2, "prune": True, "base": [], "seg": True}, "hash_consts": H, "budget": 100, "weight": 3})
    for n, f in ((1, CL), (2, TRIV), (2, CL), (3, [])) + (((4, []), (3, CL)) if th else ()):
        o.append({"h": "hull", "cfg": {"n": n, "fixed": f}, "hash_consts": H, "budget": 1500 if th else 350, "weight": 4})
    if th:
        o.append({"h": "search", "cfg": {"trs": "AB", "depth": 2, "prune": True, "base": TRIV, "seg": True}, "hash_consts": H, "budget": 1500, "weight": 5})
        o.append({"h": "search", "cfg": {"trs": "AB", "depth": 3, "prune": False, "base": [], "seg": True}, "hash_consts": H, "budget": 1500, "weight": 5})
        o.append({"h": "search", "cfg": {"trs": "ABC", "depth": 2, "prune": False, "base": [], "seg": True}, "hash_consts": H, "budget": 1500, "weight": 5})
    return o
