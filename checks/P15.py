"""Cached data of hypothesis sets never outlives the hypotheses it was computed from."""
import copy
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from hypotheses import Hypothesis_Set
from functions import Interval
import exponent_pair as EP
import bound_mu as MU

BOUNDS = ("histories of 2 (thorough: 3) earlier operations out of ten (adding an arbitrary exponent pair or an arbitrary bound on mu, adding through "
          "a copy, asking for the hull of exponent pairs, for a bound on mu, for the piecewise bound, for proofs), then each question; "
          "two fixed pairs and one with arbitrary rational components; both iteration orders of the set")
ASSUMPTIONS = ["the added pair is a possible exponent pair: 0 <= k <= 1/2 <= l <= 1"]

OPS = ("pair", "fixed", "muadd", "hull", "mu", "pw", "prove", "copyadd", "copyask", "proof")


def ask(q, H):
    if q == "hull":
        return [(h.data.k, h.data.l) for h in EP.compute_convex_hull(H)]
    if q == "mu":
        return MU.best_mu_bound(F(5, 8), H).data.mu
    if q == "pw":
        return [(p.m, p.c, p.domain.x0, p.domain.x1) for p in MU.best_mu_bound_piecewise(Interval(F(1, 2), F(1)), H)]
    return None if EP.construct_proof(F(1, 4), F(5, 8), H, reduce_dependencies=False) is None else True


def same(S, q, a, b, what):
    if q == "hull":
        sub = lambda u, v: And([Or([And(p[0] == r[0], p[1] == r[1]) for r in v]) for p in u])
        S.check(And(sub(a, b), sub(b, a)), what)
    elif q == "mu":
        S.check(a == b, what)
    elif q == "pw":
        x = S.real("x", lo=F(1, 2), hi=1, hi_open=True)
        val = lambda f: Or([And(p[2] <= x, x < p[3], y == p[0] * x + p[1]) for p in f])
        y = S.real("y")
        S.check(Iff(val(a), val(b)), what)
    else:
        S.check((a is None) == (b is None), what)


def h_history(S, n, query, first=None):
    hyp.begin_any(S)
    k = S.real("k", lo=0, hi=F(1, 2))
    l = S.real("l", lo=F(1, 2), hi=1)
    m = S.real("m", lo=0, hi=F(1, 4))
    base = [hyp.ep(F(0), F(1)), hyp.ep(F(1, 2), F(1, 2)), hyp.ep(F(1, 6), F(2, 3))]
    D, E, M = hyp.ep(k, l), hyp.ep(F(2, 7), F(4, 7)), hyp.mu(F(1, 2), m)
    H = Hypothesis_Set(base)
    have = list(base)
    G, ghave = None, None
    ops = [first] if first else []
    for i in range(n):
        o = ops[i] if i < len(ops) else S.choice(f"op{i}", OPS)
        if o == "pair":
            H.add_hypothesis(D)
            have.append(D)
        elif o == "fixed":
            H.add_hypotheses([E])
            have.append(E)
        elif o == "muadd":
            H.add_hypotheses(M)
            have.append(M)
        elif o == "copyadd":
            G = copy.copy(H)
            G.add_hypothesis(D)
            ghave = have + [D]
            ask(query, G)
        elif o == "copyask":
            G, ghave = copy.copy(H), list(have)
        elif o == "prove":
            b = MU.prove_mu_bound(F(5, 8), F(1, 2), H)
            if b is not False:
                have.append(b)
        else:
            ask(o, H)
    have = [h for i, h in enumerate(have) if all(h is not g for g in have[:i])]
    S.check(len(H) == len(have), "the set holds what was added to it")
    same(S, query, ask(query, H), ask(query, Hypothesis_Set(have)), "the answer is that of a fresh set with the same hypotheses")
    if G is not None:
        S.check(len(G) == len(set(map(id, ghave))), "the copy holds what was added to it")
        same(S, query, ask(query, G), ask(query, Hypothesis_Set(ghave)), "the copy answers like a fresh set with its hypotheses")


HARNESSES = {"history": h_history}


def tasks(tier):
    H = [F(0), F(1), F(1, 2), F(1, 6), F(2, 3), F(2, 7), F(4, 7)]
    o = [{"h": "history", "cfg": {"n": 2, "query": q, "first": f}, "hash_consts": H, "budget": 380, "weight": 3} for q in ("hull", "mu", "pw", "proof") for f in OPS]
    if tier != "quick":
        o += [{"h": "history", "cfg": {"n": 3, "query": q, "first": f}, "hash_consts": H, "budget": 1500, "weight": 5} for q in ("hull", "mu", "pw", "proof") for f in OPS]
    return o
