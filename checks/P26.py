"""Zero density estimates from exponent pairs (Ivic's lemma and Bourgain's theorem)."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from checks.common import value
from functions import Interval
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import exponent_pair as EP
import zero_density_estimate as ZD

BOUNDS = ("1-3 arbitrary exponent pairs (0 <= k <= 1/2 <= l <= 1), m = 2..8 (thorough: 2..20), every sigma in [1/2, 1]; all pairs used for Bourgain's theorem; the whole chain from one pair (1/6, l) with arbitrary l (thorough: any pair)")
ASSUMPTIONS = ["the strict inequalities k < 11/85, l > 3/5 and 15 l + 20 k > 13 of Bourgain's theorem are closed, as in the code", "end points of pieces are not judged"]
H0 = [F(0), F(1), F(1, 2), F(3, 4)]


def pairs(S, n, ys=False):
    out = []
    for i in range(n):
        k, l = S.real(f"k{i}", lo=0, hi=F(1, 2)), S.real(f"l{i}", lo=F(1, 2), hi=1)
        S.assume(k + l <= 1)
        y = S.int(f"y{i}", 1990, 1991) if ys else 1990 + i
        out.append((k, l, Hypothesis(f"pair {i}", "Exponent pair", EP.Exp_pair(k, l), "", Reference.make("X", y)), y))
    return out


def threshold(k, l, m, x):
    """x >= the third quantity of the lemma (its denominator is positive)."""
    s = k + l
    num = 3 * m * m * (1 + 2 * s) - (4 * k + 2 * l) * m + 2 * s
    den = 4 * m * m * (1 + 2 * s) - (6 * k + 4 * l) * m + 2 * s
    return x * den >= num


def lemma(k, l, m, x):
    """The condition on sigma in Lemma gzd."""
    a, b = F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2), F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2)
    return Or(x >= a, And(x >= b, threshold(k, l, m, x)))


def ivic(S, h, x, m, prs, what="Ivic"):
    I = h.data.interval
    S.check(And(I.x1 == 1, isinstance(h.data, ZD.Zero_Density_Estimate), h.hypothesis_type == "Zero density estimate"), f"{what}: an estimate up to 1")
    inside = x >= I.x0
    S.check(Iff(inside, Or([lemma(k, l, m, x) for k, l, *_ in prs])), f"{what}: valid exactly where some pair allows it")
    if bool(inside):
        v = value(h.data.at(x))
        S.check(v * ((3 * m - 2) * x + 2 - m) == 3 * m, f"{what}: the bound of the lemma")
        S.observe("v", v)
        S.check(len(h.dependencies) == 1, f"{what}: rests on one pair")
        d = list(h.dependencies)[0]
        S.check(lemma(d.data.k, d.data.l, m, x), f"{what}: the pair it rests on allows it")
        S.check(h.reference.year() == d.reference.year(), f"{what}: dated like the pair it rests on")
    return I


def h_ivic(S, n, m, asset):
    hyp.begin_any(S)
    x = S.real("x", lo=F(1, 2), hi=F(999, 1000))
    P = pairs(S, n)
    hs = [p[2] for p in P]
    h = ZD.ivic_ep_to_zd(set(hs) if asset else hs, m) if m != 2 or asset else ZD.ivic_ep_to_zd(hs)
    ivic(S, h, x, m, P)
    d = list(h.dependencies)[0]
    S.check(d in hs, "rests on one of the given pairs")
    S.check(And([And(p[2].data.k == p[0], p[2].data.l == p[1]) for p in P]), "the pairs are unchanged")


def bourgain(S, hs, x):
    """Bourgain's theorem at x for every piece, and the best among the pairs used."""
    allowed = []
    pieces = []
    for h in hs:
        S.check(And(len(h.dependencies) == 1, h.hypothesis_type == "Zero density estimate"), "Bourgain: rests on one exponent pair")
        d = list(h.dependencies)[0]
        k, l = d.data.k, d.data.l
        S.check(And(d.hypothesis_type == "Exponent pair", 0 <= k, k <= F(1, 5), l >= F(3, 5), l <= 1, k <= l, k + l <= 1, 15 * l + 20 * k >= 13), "Bourgain: the pair is admissible")
        ok = And(x * 2 * (k + 1) > l + 1, Or(k <= F(11, 85), x * (170 * k - 22) > 144 * k - 11 * l - 11))
        allowed.append((ok, k, l))
        pieces.append((h, k, l, ok))
    ins = []
    for h, k, l, ok in pieces:
        I = h.data.interval
        c = And(x > I.x0, x < I.x1)
        ins.append(c)
        S.check(Implies(c, ok), "Bourgain: the pair may be used on the whole piece")
        if not bool(c):
            continue
        v = value(h.data.at(x))
        S.observe("v", v)
        S.check(v * (2 * (1 + k) * x - 1 - l) == 4 * k, "Bourgain: the bound of the theorem")
        S.check(And([Implies(o, v * (2 * (1 + a) * x - 1 - b) <= 4 * a) for o, a, b in allowed]), "Bourgain: no other pair gives more")
    S.check(And([Not(And(a, b)) for i, a in enumerate(ins) for b in ins[:i]]), "Bourgain: pieces do not overlap")
    ends = [Or(x == h.data.interval.x0, x == h.data.interval.x1) for h in hs]
    S.check(Implies(Or([o for o, _, _ in allowed]), Or(ins + ends)), "Bourgain: every sigma allowed by a pair is covered")


# the optimised corollary to Bourgain's theorem (zero_density.tex): n/(a sigma - b) from the lower end to the next
OPTIMISED = [(F(3, 4), 11, 48, 36), (F(14, 15), 391, 2493, 2014), (F(2841, 3016), 22232, 163248, 134765), (F(859, 908), 4406612, 33911310, 28181831),
             (F(635113, 655952), 3918, 49189, 43490), (F(637457, 656512), 2351558, 39632665, 35918731), (F(39, 40), 1780, 35670, 32717), (F(59, 60), 6, 303, 290)]


def h_bourgain(S):
    x = S.real("x", lo=F(1, 2), hi=1)
    hs = ZD.bourgain_ep_to_zd()
    bourgain(S, hs, x)
    found = []
    for h in hs:
        c = And(x >= h.data.interval.x0, x <= h.data.interval.x1)
        v = value(h.data.bound.at(x)) if bool(And(c, x > F(3, 4), x < 1)) else None
        if v is not None:
            found.append(c)
            for i, (lo, n, a, b) in enumerate(OPTIMISED):
                hi = OPTIMISED[i + 1][0] if i < 7 else 1
                S.check(Implies(And(lo < x, x < hi), v * (a * x - b) <= n), "Bourgain: nothing weaker than the corollary")
    S.check(Implies(And(x > F(3, 4), x < 1), Or(found)), "Bourgain: the range of the corollary is covered")


def h_known(S):
    """The pairs used lie on or above the hull of those of the literature and its derived bounds (the solver
    decides over all convex combinations)."""
    import literature
    L = literature.literature
    H = Hypothesis_Set()
    for ty in ("Exponent pair", "Exponent pair transform", "Upper bound on beta"):
        H.add_hypotheses(L.list_hypotheses(hypothesis_type=ty))
    H.add_hypotheses(EP.compute_exp_pairs(H, search_depth=5, prune=True))
    H.add_hypotheses(EP.exponent_pairs_to_beta_bounds(H))
    H.add_hypotheses(EP.compute_best_beta_bounds(H))
    P = [h.data for h in EP.beta_bounds_to_exponent_pairs(H)] + [h.data for h in H if h.hypothesis_type == "Exponent pair" and isinstance(h.data, EP.Exp_pair)]
    a, b = S.real("a", lo=-2, hi=2), S.real("b", lo=-2, hi=2)
    for h in ZD.bourgain_ep_to_zd():
        d = list(h.dependencies)[0].data
        # separating line l = a + b k
        S.check(Not(And([p.l >= a + b * p.k for p in P] + [d.l < a + b * d.k])), f"({d.k}, {d.l}) is implied by the known pairs")


def h_chain(S, n, k):
    """Everything derived from a set of exponent pairs."""
    hyp.begin_any(S)
    x = S.real("x", lo=F(1, 2), hi=F(999, 1000))
    P = pairs(S, n)
    if k is not None:
        S.assume(P[0][0] == F(k))
    H = Hypothesis_Set([p[2] for p in P])
    r = ZD.ep_to_zd(H)
    b = [h for h in r if "Bourgain" in h.proof]
    o = [h for h in r if "Bourgain" not in h.proof]
    S.check(len(o) == 1, "one estimate of Ivic's kind")
    used = [h.data for h in H if h.hypothesis_type == "Exponent pair"]
    d = list(o[0].dependencies)[0].data
    I = o[0].data.interval
    for k, l in [(p[0], p[1]) for p in P] + [(F(0), F(1))]:
        S.check(Implies(lemma(k, l, 2, x), x >= I.x0), "valid wherever a given or trivial pair allows it")
    S.check(Implies(x >= I.x0, lemma(d.k, d.l, 2, x)), "the pair it rests on allows it")
    S.check(Implies(x >= I.x0, Or([lemma(u.k, u.l, 2, x) for u in used] + [lemma(F(0), F(1), 2, x), lemma(F(1, 2), F(1, 2), 2, x)])), "valid only where a known pair allows it")
    bourgain(S, b, x)


HARNESSES = {"ivic": h_ivic, "bourgain": h_bourgain, "known": h_known, "chain": h_chain}


def tasks(tier):
    out = []
    for m in range(2, 9 if tier == "quick" else 21):
        for n in (1, 2, 3):
            if n < 3 or m in (2, 3, 6) or tier != "quick":
                out.append({"h": "ivic", "cfg": {"n": n, "m": m, "asset": n == 2 and m % 2 == 0}})
    out += [{"h": "bourgain"}, {"h": "chain", "cfg": {"n": 1, "k": "1/6"}, "weight": 3}]
    if tier != "quick":
        out.append({"h": "chain", "cfg": {"n": 1, "k": None}, "budget": 600})
    out.append({"h": "known", "weight": 5, "budget": 300})
    for t in out:
        t.setdefault("budget", 200)
        t.setdefault("hash_consts", H0)
    return out
