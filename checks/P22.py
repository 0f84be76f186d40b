"""Zeta large value estimates: from large value estimates, bounds on beta and bounds on mu."""
from symx.harness import F, And, Or, Not, Implies, Iff
from symx import symcdd
from checks import hyp, reg
from checks.P21 import below, bounds, box, T, L
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import bound_beta as BB
import large_values as LV
import zeta_large_values as Z

BOUNDS = ("every point (sigma, tau, rho); 1-2 large value estimates with arbitrary constants and 0-2 arbitrary powers; 1-2 bounds on beta with arbitrary values on "
          "intervals with an arbitrary end; every bound on mu")
ASSUMPTIONS = ["the regions are closed: on the lines where a bound begins to apply or another one takes over, either side counts","tau at or beyond the artificial limit TAU_UPPER_LIMIT carries no claim"]


def zbox(x):
    s, t, r = x
    return And(s >= F(1, 2), s <= 1, t >= 2, t <= T)


def lve(S, name, slopes, y):
    bs = bounds(S, slopes) if not name else [[S.real(f"{name}{i}")] + [F(v) for v in sl] for i, sl in enumerate(slopes)]
    return bs, Hypothesis(f"estimate {name}", "Large value estimate", LV.convert_bounds([list(b) for b in bs]), "given", Reference.make("X", y))


def h_lv(S, slopess, nk):
    hyp.begin_any(S)
    symcdd.KEEP_SYMBOLIC_NORMALS = True
    y = S.real("y", lo=1900, hi=2020)
    ks = [S.real(f"k{i}", lo=0, lo_open=True) for i in range(nk)]
    given = [lve(S, f"c{i}_", sl, y) for i, sl in enumerate(slopess)]
    trs = [LV.raise_to_power_hypothesis(k) for k in ks]
    zeta = Hypothesis("other", "Zeta large value estimate", given[0][1].data, "", hyp.REF[0]) if given else None
    H = Hypothesis_Set([h for _, h in given] + trs + ([zeta] if zeta else []))
    out = Z.lv_to_zlv(H)
    S.check(len(out) == len(given) * (1 + nk), "one estimate for every estimate and every power of it")
    x = s, t, r = S.reals("s t r")
    left = [(bs, h, None) for bs, h in given] + [(bs, h, i) for i in range(nk) for bs, h in given]
    for e in out:
        S.check(e.hypothesis_type == "Zeta large value estimate", "type")
        S.check(e.reference.year() == y, "dated like its source")
        ds = list(e.dependencies)
        S.check(len(ds) == 1, "one source")
        src = ds[0]
        cand = []
        for j, (bs, h, i) in enumerate(left):
            if i is None and src is h:
                cand.append((j, And(t >= 2, box(x), below(bs, x))))
            elif i is not None and list(src.dependencies) == [h]:
                q = (s, t / ks[i], r / ks[i])
                cand.append((j, And(t >= 2, box(q), below(bs, q))))
        S.check(len(cand) > 0, "rests on a given estimate, or on a power of one")
        m = reg.mem(e.data.region, x)
        if len(cand) == 1:
            S.check(Iff(m, cand[0][1]), "the source estimate, restricted to tau >= 2")
            left.pop(cand[0][0])
        else:
            for j, w in cand:
                if of_power(e, ks[left[j][2]]):
                    S.check(Iff(m, w), "the source estimate, restricted to tau >= 2")
                    left.pop(j)
                    break
            else:
                S.fail("the power belongs to the transform")
    S.check(len(H) == len(given) + nk + (1 if zeta else 0), "the set is unchanged")


def of_power(e, k):
    """Which power an estimate came from is read off its proof text."""
    return f"the k = {k} power" in list(e.dependencies)[0].proof


def h_beta(S, pieces):
    """pieces: [(lo, hi, slope)], None = arbitrary."""
    hyp.begin_any(S)
    hs, dom = [], []
    prev = None
    for i, (lo, hi, m) in enumerate(pieces):
        lo = prev if lo == "prev" else F(lo)
        hi = S.real(f"h{i}", lo=0, hi=F(1, 2), lo_open=True) if hi is None else F(hi)
        S.assume(And(lo < hi, hi * T > 1))
        m, c = S.real(f"m{i}") if m is None else F(m), S.real(f"c{i}")
        hs.append(hyp.beta(m, c, lo, hi, hyp.REF[i]))
        dom.append((m, c, lo, hi))
        prev = hi
    H = Hypothesis_Set(hs)
    out = Z.beta_to_zlv(H)
    x = s, t, r = S.reals("s t r")
    triv = And(zbox(x), r >= 0, r <= t)
    m = And([reg.mem(e.data.region, x) for e in out])
    on, strict = [], []
    for b, c, lo, hi in dom:
        app = And(lo * t <= 1, 1 <= hi * t, t >= 2)     # 1/hi <= t <= 1/lo
        on.append(And(app, s >= c * t + b))
        strict.append(And(lo * t < 1, 1 < hi * t, t > 2, s > c * t + b))
    ends = Or([e * t == 1 for _, _, lo, hi in dom for e in (lo, hi)] + [c * t + b == c2 * t + b2 for i, (b, c, _, _) in enumerate(dom) for b2, c2, _, _ in dom[:i]])
    if out:
        S.check(Implies(m, triv), "never beyond the trivial bound")
        S.check(Implies(And(triv, Not(Or(on))), m), "nothing is excluded that the bounds on beta allow")
        S.check(Implies(And(m, t < T, Not(ends), Or(strict)), r == 0), "LV_zeta vanishes where sigma exceeds tau * beta(1/tau)")
        S.check(Implies(And(zbox(x), r == 0), m), "rho = 0 is always possible")
    S.check(len(out) > 0, "an estimate for every bound on beta")
    for e in out:
        ds = list(e.dependencies)
        S.check(len(ds) == 1 and ds[0].hypothesis_type == "Upper bound on beta" and e.hypothesis_type == "Zeta large value estimate", "rests on a bound on beta")
        S.check(e.reference.year() == ds[0].reference.year(), "dated like its source")


def h_mu(S, n):
    hyp.begin_any(S)
    hs, vals = [], []
    for i in range(n):
        a, b = S.real(f"sg{i}", lo=0, hi=1), S.real(f"mu{i}", lo=0, hi=1)
        hs.append(hyp.mu(a, b, hyp.REF[i]))
        vals.append((a, b))
    out = Z.mu_to_zlv(Hypothesis_Set(hs))
    S.check(len(out) == n, "one estimate for every bound on mu")
    x = s, t, r = S.reals("s t r")
    triv = And(zbox(x), r >= 0, r <= t)
    for e in out:
        ds = list(e.dependencies)
        S.check(len(ds) == 1 and any(ds[0] is h for h in hs), "rests on a given bound")
        a, b = vals[[ds[0] is h for h in hs].index(True)]
        m = reg.mem(e.data.region, x)
        S.check(Iff(m, And(triv, Or(r == 0, s <= a + t * b))), "LV_zeta vanishes beyond sigma_0 + tau mu(sigma_0), otherwise the trivial bound")
        S.check(e.hypothesis_type == "Zeta large value estimate" and e.reference.year() == ds[0].reference.year(), "type and date")


def h_trivial(S):
    h = Z.get_trivial_zlv()
    x = s, t, r = S.reals("s t r")
    S.check(Iff(reg.mem(h.data.region, x), And(zbox(x), r >= 0, r <= t)), "LV_zeta <= tau for tau >= 2")
    S.check(h.hypothesis_type == "Zeta large value estimate" and not h.dependencies, "needs nothing")


def h_lit(S, slopes):
    bs = bounds(S, slopes)
    h = Z.literature_bound_ZLV_Max([list(b) for b in bs], hyp.REF[0], " (p)")
    x = S.reals("s t r")
    S.check(Iff(reg.mem(h.data.region, x), And(box(x), below(bs, x))), "the region of the given bounds")
    S.check(h.hypothesis_type == "Zeta large value estimate" and h.reference is hyp.REF[0] and not h.dependencies, "a literature estimate")


def h_all(S, zeta):
    """All zeta estimates of a set: the given ones and those from large value estimates and bounds on beta."""
    hyp.begin_any(S)
    c = S.real("c")
    _, l = lve(S, "c_", [[-2, 0]], 1990)
    z = [Hypothesis(f"z{i}", "Zeta large value estimate", l.data, "", hyp.REF[0]) for i in range(zeta)]
    b = hyp.beta(c, S.real("d"), F(0), F(1, 2))
    k = LV.raise_to_power_hypothesis(2)
    H = Hypothesis_Set([l, k, b] + z)
    out = Z.compute_large_value_estimate(H)
    S.check(all(h.hypothesis_type == "Zeta large value estimate" for h in out), "type")
    S.check(all(any(h is g for h in out) for g in z), "the given zeta estimates are kept")
    src = [list(h.dependencies)[0] for h in out if not any(h is g for g in z)]
    S.check(sum(d is l for d in src) == 1, "the large value estimate is used")
    S.check(sum(list(d.dependencies) == [l] for d in src) == 1, "its power is used")
    S.check(sum(d.hypothesis_type == "Upper bound on beta" for d in src) >= 1, "the bound on beta is used")
    S.check(len(H) == 3 + zeta, "the set is unchanged")


HARNESSES = {"lv": h_lv, "beta": h_beta, "mu": h_mu, "trivial": h_trivial, "lit": h_lit, "all": h_all}


def tasks(tier):
    th = tier != "quick"
    bud = 900 if th else 90
    o = [{"h": "trivial"}]

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "budget": bud, "weight": weight, "hash_consts": [F(0), F(1), F(1, 2), F(1, 3), F(1, 4)]})
    for sl, nk in (([], 1), ([[[-2, 0]]], 0), ([[[-2, 0], [-6, 1]]], 0), ([[[-2, 0], [-6, 1]]], 1), ([[[-2, 0]]], 2), ([[[-2, 0]], [[-2, 0], [-4, 1]]], 1)):
        add("lv", slopess=sl, nk=nk)
    for p in ([["0", "1/2", None]], [["0", None, None]], [["1/10", None, None]], [["1/10", "1/2", None]], [["1/5", "1/3", None]],
              [["0", None, None], ["prev", "1/2", "1/3"]], [["0", "1/3", None], ["1/4", "1/2", "1/2"]], [["0", "1/2", None], ["0", "1/2", "2/3"]], [["1/5", None, "4/5"], ["prev", "1/2", None]]):
        add("beta", pieces=p, weight=3 + 2 * len(p))
    if th:
        for p in ([["0", None, None], ["prev", "1/2", None]], [["0", "1/3", None], ["1/4", "1/2", None]], [["1/5", None, None], ["prev", "1/2", None]]):
            add("beta", pieces=p, weight=8)
    for n in (0, 1, 2):
        add("mu", n=n)
    for sl in ([[-12, 2]], [[-2, 0], [-6, 1]]):
        add("lit", slopes=sl)
    add("all", zeta=0)
    add("all", zeta=2)
    return o
