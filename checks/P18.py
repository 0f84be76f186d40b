"""Bounds on beta and exponent pairs: best bounds, and both directions of the duality."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from hypotheses import Hypothesis_Set
from reference import Reference
from functions import Affine, Interval
import bound_beta as BB
import exponent_pair as EP
import literature as L

BOUNDS = ("best bounds: 1-2 bounds with arbitrary coefficients and end points, 3 with arbitrary coefficients (domains fixed), arbitrary restriction interval; beta to pairs: 1-3 affine "
          "bounds on adjoining, overlapping or separated intervals with arbitrary values at the end points (one arbitrary break point); pairs to beta: 2 arbitrary pairs; both set orders")
ASSUMPTIONS = ["a bound on beta is never below the trivial lower bound alpha / 2 (otherwise it is false)", "exponent pairs lie in the triangle of possible pairs",
               "Sargos' D process is that of the blueprint (Thm. sargos_D) on [0, 1/2]"]


def isin(x, d):
    return And(x >= d.x0 if d.include_lower else x > d.x0, x <= d.x1 if d.include_upper else x < d.x1)


def val(f, x):
    return f.m * x + f.c


def h_best(S, doms, crop):
    """doms: list of (lo, hi) with None for an arbitrary end."""
    hyp.begin_any(S)
    hs = []
    for i, (lo, hi) in enumerate(doms):
        lo = S.real(f"lo{i}", lo=-1, hi=2) if lo is None else F(lo)
        hi = S.real(f"hi{i}", lo=-1, hi=2) if hi is None else F(hi)
        S.assume(lo < hi)
        m, c = S.reals(f"m{i} c{i}")
        hs.append(hyp.beta(m, c, lo, hi, hyp.REF[i]))
    orig = [(h.data.bound.m, h.data.bound.c, h.data.bound.domain.x0, h.data.bound.domain.x1) for h in hs]
    H = Hypothesis_Set(hs + [hyp.ep(F(0), F(1))])
    if crop:
        a = F(1, 8) if crop == "hi" else S.real("a", lo=-1, hi=2)
        b = F(1, 2) if crop == "lo" else S.real("b", lo=-1, hi=2)
        S.assume(a < b)
        out = BB.compute_best_beta_bounds(H, Interval(a, b, True, True))
    else:
        a, b = F(0), F(1, 2)
        out = BB.compute_best_beta_bounds(H)
    for h, o in zip(hs, orig):
        f = h.data.bound
        S.check(And(f.m == o[0], f.c == o[1], f.domain.x0 == o[2], f.domain.x1 == o[3]), "the given bounds are unchanged")
    x = S.real("x")
    inr = And(x >= a, x <= b)
    for p in out:
        f = p.data.bound
        here = isin(x, f.domain)
        S.check(Implies(here, inr), "only inside the requested domain")
        S.check(Implies(here, And([Implies(isin(x, h.data.bound.domain), val(f, x) <= val(h.data.bound, x)) for h in hs])), "no better bound applies")
        src = [p] if any(p is h for h in hs) else list(p.dependencies)
        S.check(len(src) == 1 and any(src[0] is h for h in hs), "each piece rests on exactly one given bound")
        if len(src) == 1:
            g = src[0].data.bound
            S.check(Implies(here, And(isin(x, g.domain), val(g, x) == val(f, x))), "the piece equals the bound it rests on")
            S.check(p.hypothesis_type == "Upper bound on beta", "type")
            if p is not src[0]:
                S.check(p.reference.year() == src[0].reference.year(), "dated like the bound it rests on")
    S.check(Iff(Or([isin(x, p.data.bound.domain) for p in out]), And(inr, Or([isin(x, h.data.bound.domain) for h in hs]))), "defined exactly where some bound applies")


def chain(S, shape, fix=()):
    """Bounds on [0, 1/2] given by their values at the end points (arbitrary, or fixed for the pieces in `fix`)."""
    b = S.real("b", lo=0, hi=F(1, 2), lo_open=True, hi_open=True) if "b" in shape else F(1, 4)
    if shape == "0b,t1":
        S.assume(b < F(3, 8))
    pts = {"0": F(0), "b": b, "m": F(1, 4), "q": F(1, 8), "t": F(3, 8), "1": F(1, 2), "2": F(1)}
    out = []
    for i, w in enumerate(shape.split(",")):
        x0, x1 = pts[w[0]], pts[w[1]]
        fx = dict((str(j), v) for j, v in fix).get(str(i))
        v0 = S.real(f"u{i}", lo=0, hi=1) if fx is None or fx[0] is None else F(fx[0])
        v1 = S.real(f"v{i}", lo=0, hi=1) if fx is None or fx[1] is None else F(fx[1])
        S.assume(And(v0 >= x0 / 2, v1 >= x1 / 2))
        m = (v1 - v0) / (x1 - x0)
        out.append((m, v0 - m * x0, x0, x1))
    return out


def h_pairs(S, shape, known, fix=()):
    hyp.begin_any(S)
    bs = chain(S, shape, fix)
    hs = [hyp.beta(*b, hyp.REF[i % 3], name=f"beta{i}") for i, b in enumerate(bs)]
    base = [hyp.ep(F(0), F(1)), hyp.ep(F(1, 2), F(1, 2))] if known else []
    B = L.B_transform_hypothesis
    H = Hypothesis_Set(hs + base + [B])
    out = EP.beta_bounds_to_exponent_pairs(H)
    x = S.real("x", lo=0, hi=F(1, 2))
    best = lambda t, v: And([Implies(And(b[2] <= t, t <= b[3]), v <= b[0] * t + b[1]) for b in bs])   # v is at most the best bound
    lines = []
    for h in base:
        S.check(any(h is o for o in out), "known pairs stay in the list")
    for h in out:
        if any(h is o for o in base):
            continue
        k, l = h.data.k, h.data.l
        if any(d is B for d in h.dependencies):
            src = [d for d in h.dependencies if d is not B]
            S.check(len(src) == 1 and src[0].hypothesis_type == "Exponent pair", "a B transform rests on one pair")
            if len(src) != 1:
                continue
            g = src[0]
            S.check(And(k == g.data.l - F(1, 2), l == g.data.k + F(1, 2)), "the B transform of its dependency")
            if any(g is o for o in base):
                continue
            S.check(any(g is o for o in out), "the pair it rests on is in the list")
            continue
        S.check(h.hypothesis_type == "Exponent pair", "type")
        lines.append((k, l))
        S.check(Or([And(b[2] <= x, x <= b[3], k + (l - k) * x >= b[0] * x + b[1]) for b in bs]), "a new pair is implied by the bounds at every point")
        ds = list(h.dependencies)
        S.check(len(ds) > 0 and all(d.hypothesis_type == "Upper bound on beta" for d in ds), "it rests on bounds on beta")
        S.check(all(any(d is b or any(e is b for e in d.dependencies) for b in hs) for d in ds), "the bounds it rests on are the given ones")
        S.check(Or([And(d.data.bound.domain.x0 <= x, x <= d.data.bound.domain.x1, d.data.bound.m * x + d.data.bound.c <= k + (l - k) * x) for d in ds]),
                "the bounds it rests on are enough to imply it at every point")
    # completeness: a line above the bounds at every end point dominates the concave envelope
    k0, l0, x1 = S.reals("k0 l0 x1")
    S.assume(And(x1 >= 0, x1 <= F(1, 2)))
    ends = sorted({id(e): e for b in bs for e in (b[2], b[3])}.values(), key=id)
    above = []
    for i, b in enumerate(bs):
        if len(bs) == 1 or not overlapping(shape):
            e0, e1 = b[2], (b[3] if "2" not in shape else F(1, 2))
            above += [k0 + (l0 - k0) * e >= b[0] * e + b[1] for e in (e0, e1)]
    have = lines + [(F(0), F(1))] * bool(known) + [(F(1, 2), F(1, 2))] * bool(known)
    gap = shape in GAPS
    if gap:
        S.check(len(lines) == 0, "bounds that leave a gap imply no pair")
    elif above and not known:
        S.check(Implies(And(above), Or([k + (l - k) * x1 <= k0 + (l0 - k0) * x1 for k, l in have])), "every implied pair is a consequence of the returned ones")
    S.cover("new pair", bool(lines) or gap)


GAPS = ("0q,t1", "0b,t1", "0q,qm,t1", "0m", "m1")


def overlapping(shape):
    return shape in ("01,01", "0t,q1", "01,0b", "02,01")


def h_ep(S, n, D, extra):
    hyp.begin_any(S)
    P = []
    for i in range(n):
        k = S.real(f"k{i}", lo=0, hi=F(1, 2))
        l = S.real(f"l{i}", lo=F(1, 2), hi=1)
        S.assume(k + l <= 1)
        P.append(hyp.ep(k, l, hyp.REF[i]))
    T = L.D_transform_hypothesis
    H = Hypothesis_Set(P + ([T] if D else []) + ([hyp.beta(F(1), F(0), F(0), F(1))] if extra else []))
    out = BB.exponent_pairs_to_beta_bounds(H)
    x = S.real("x", lo=0, hi=F(1, 2))
    for h in out:
        S.check(h.hypothesis_type == "Upper bound on beta", "type")
        ds = list(h.dependencies)
        src = [d for d in ds if any(d is p for p in P)]
        S.check(len(src) == 1 and len(ds) == (2 if any(d is T for d in ds) else 1), "each bound rests on one pair, and D if used")
    for p in P:
        k, l = p.data.k, p.data.l
        mine = [h for h in out if any(d is p for d in h.dependencies)]
        plain = [h.data.bound for h in mine if not any(d is T for d in h.dependencies)]
        S.check(len(plain) == 1, "one direct bound per pair")
        S.check(Or([And(isin(x, f.domain), val(f, x) == k + (l - k) * x) for f in plain]), "the pair (k, l) gives beta <= k + (l - k) alpha on [0, 1/2]")
        for f in plain:
            S.check(And(f.domain.x0 >= 0, f.domain.x1 <= F(1, 2)), "on [0, 1/2] only")
        dd = [h.data.bound for h in mine if any(d is T for d in h.dependencies)]
        if not D:
            S.check(len(dd) == 0, "no D without the transform")
            continue
        den = 8 * (5 * k + 3 * l + 2)
        k1, l1 = (5 * k + l + 2) / den, (29 * k + 21 * l + 10) / den
        a, b = k1 + x * (l1 - k1), F(1, 12) + F(2, 3) * x
        for f in dd:
            S.check(Implies(isin(x, f.domain), And(val(f, x) >= a, val(f, x) >= b, Or(val(f, x) == a, val(f, x) == b), x <= F(1, 2))), "the D process bound is the larger of the two lines")
        S.check(Or([isin(x, f.domain) for f in dd]), "the D process covers [0, 1/2]")


def h_trivial(S):
    x = S.real("x", lo=0, hi=2)
    f, g = BB.trivial_beta_bound_1.data.bound, BB.trivial_beta_bound_2.data.bound
    S.check(Implies(isin(x, f.domain), And(val(f, x) == x, x <= 1)), "beta(alpha) <= alpha up to 1")
    S.check(Implies(isin(x, g.domain), And(val(g, x) == x - 1, x > 1)), "beta(alpha) <= alpha - 1 above 1")
    S.check(Implies(x <= 1, isin(x, f.domain)), "covers [0, 1]")
    S.check(Implies(x > 1, isin(x, g.domain)), "covers everything above 1")


HARNESSES = {"best": h_best, "pairs": h_pairs, "ep": h_ep, "trivial": h_trivial}


def tasks(tier):
    th = tier != "quick"
    H = [F(0), F(1), F(1, 2), F(1, 4), F(1, 8), F(3, 8)]
    o = [{"h": "trivial"}]
    bud = 2500 if th else 100

    def add(h, weight=4, **cfg):
        o.append({"h": h, "cfg": cfg, "hash_consts": H, "budget": bud, "weight": weight})
    for doms, crop in (([(None, None)], False), ([(None, "1/2")], "hi"), ([(0, None)], "lo"), ([(0, 1)], False), ([(0, "1/4"), ("1/4", "1/2")], "hi"),
                       ([(0, "1/2"), ("1/8", "3/8")], False), ([(0, "1/4"), ("1/4", 1)], False), ([(0, 1), (None, "3/8")], False), ([("1/8", 1), (0, "3/8")], "lo"), ([], False)):
        add("best", doms=doms, crop=crop, weight=5)
    if th:
        for doms, crop in (([(0, "1/2")] * 3, False), ([(0, "1/4"), ("1/8", "1/2"), (0, 1)], False), ([(None, None), (None, None)], False), ([(0, 1), (None, None)], False),
                           ([(None, None)], True), ([("1/8", 1), (0, "3/8")], True)):
            add("best", doms=doms, crop=crop, weight=6)
    for shape in ("01", "02", "0q,t1", "0b,t1", "0m", "m1"):
        add("pairs", shape=shape, known=False)
    add("pairs", shape="01", known=True)
    two = [("0m,m1", [(0, ("0", "1/4"))]), ("0m,m1", [(1, ("1/5", "3/8"))]), ("0m,m1", [(0, ("1/10", None)), (1, (None, "1/3"))]), ("0b,b1", [(0, ("0", "1/4")), (1, ("3/10", "1/2"))]),
           ("0q,qm,m1", [(0, ("0", "1/8")), (2, ("1/5", "3/10"))]), ("0q,qm,m1", [(0, ("1/10", None)), (1, ("1/8", "1/5")), (2, (None, "1/3"))]),
           ("01,01", [(0, ("1/10", "1/3"))]), ("0t,q1", [(0, ("1/14", "5/14"))]), ("0q,qm,t1", [(0, ("0", "1/8")), (1, ("1/8", "1/6"))])]
    for shape, fix in two:
        add("pairs", shape=shape, known=False, fix=fix, weight=5)
    add("pairs", shape="0m,m1", known=True, fix=[(0, ("1/10", "1/5"))], weight=5)
    if th:
        for shape in ("0m,m1", "0b,b1", "0q,qm,m1", "01,01", "0t,q1", "0q,qm,t1"):
            add("pairs", shape=shape, known=False, weight=7)
        add("pairs", shape="0m,m1", known=True, weight=7)
    for n, D, e in ((1, True, False), (2, True, False), (2, False, True), (0, True, True)):
        o.append({"h": "ep", "cfg": {"n": n, "D": D, "extra": e}, "hash_consts": H + [F(1, 12), F(2, 3)], "budget": bud, "weight": 3})
    return o
