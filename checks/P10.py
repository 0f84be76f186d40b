"""Affine.min_with / max_with: exact lower/upper envelope of affine pieces."""
from symx.harness import F, And, Or, Not, Implies, Iff
from functions import Affine, Interval

BOUNDS = ("1 function against 1 (arbitrary slopes, intercepts and domain end points; open/closed "
          "combinations listed per task; with an arbitrary crop interval when one or, in the thorough "
          "tier, none of the two domains is fixed) or 1 against 2 (arbitrary intercepts, slopes fixed per "
          "task in the quick tier, on fixed overlapping domains) or 1 against 3 (arbitrary intercepts of the 3); "
          "a function against itself or against one other function listed twice; an arbitrary rational point")
ASSUMPTIONS = ["finite rational end points", "domains contain more than one point unless stated"]


def val(f, x):
    return f[0] * x + f[1]


def inside(x, d):
    lo, hi, a, b = d
    return And(x >= lo if a else x > lo, x <= hi if b else x < hi)


def envelope(S, fs, doms, crop, kind, labels=None):
    A = [Affine(m, c, Interval(*d), None if labels is None else labels[i])
         for i, ((m, c), d) in enumerate(zip(fs, doms))]
    op = A[0].min_with if kind == "min" else A[0].max_with
    res = op(A[1:], Interval(*crop)) if crop else op(A[1:])
    x = S.real("x")
    within = inside(x, crop) if crop else True
    defined = [And(inside(x, d), within) for d in doms]
    S.cover("defined", Or(defined))
    ins = []
    better = (lambda u, w: u <= w) if kind == "min" else (lambda u, w: u >= w)
    for p in res:
        I = p.domain
        c = inside(x, (I.x0, I.x1, I.include_lower, I.include_upper))
        ins.append(c)
        v = p.at(x, extend_domain=True)
        S.check(Implies(c, Or(defined)), "a piece only covers points where some function is defined")
        S.check(And([Implies(And(c, d), better(v, val(f, x))) for f, d in zip(fs, defined)]),
                "the piece is the " + kind)
        S.check(Implies(c, Or([And(d, v == val(f, x)) for f, d in zip(fs, defined)])),
                "attained by one of the functions")
        if labels:
            S.check(Implies(c, Or([And(d, v == val(f, x), p.label == l) for f, d, l in zip(fs, defined, labels)])),
                    "the label names a function attaining the value")
    S.check(Implies(Or(defined), Or(ins)), "covered wherever a function is defined")
    S.check(And([Not(And(u, w)) for i, u in enumerate(ins) for w in ins[:i]]), "pieces are disjoint")
    for p, q in zip(res, res[1:]):
        S.check(p.domain.x1 <= q.domain.x0, "pieces are ordered")
    for a, (m, c), d in zip(A, fs, doms):
        S.check(And(a.m == m, a.c == c, a.domain.x0 == d[0], a.domain.x1 == d[1],
                    a.domain.include_lower == d[2], a.domain.include_upper == d[3]), "operands unchanged")
    S.observe("r", [[p.m, p.c, p.domain.x0, p.domain.x1] for p in res])


BR = [(True, True), (True, False), (False, True), (False, False)]


def h_two(S, kind, b1, b2):
    fs = [S.reals("m1 c1"), S.reals("m2 c2")]
    l1, h1, l2, h2 = S.reals("l1 h1 l2 h2")
    S.assume(And(l1 < h1, l2 < h2))
    envelope(S, fs, [(l1, h1, *BR[b1]), (l2, h2, *BR[b2])], None, kind)


def h_crop(S, kind, bc, fixed):
    fs = [S.reals("m1 c1"), S.reals("m2 c2")]
    lc, hc = S.reals("lc hc")
    l2, h2 = (F(1, 4), F(3, 2)) if fixed else S.reals("l2 h2")
    S.assume(And(l2 < h2, lc < hc))
    envelope(S, fs, [(F(0), F(1), True, False), (l2, h2, True, False)], (lc, hc, *BR[bc]), kind)


DOMS = [[(F(0), F(1), True, True), (F(0), F(1), True, True), (F(0), F(1), True, True)],
        [(F(0), F(1, 2), True, True), (F(1, 2), F(1), True, True), (F(1, 4), F(3, 4), True, True)],
        [(F(0), F(1), True, False), (F(1, 3), F(1, 2), False, True), (F(1, 2), F(2), True, False)]]


def h_three(S, kind, k, slopes):
    if slopes:
        fs = list(zip([F(m) for m in slopes], S.reals("c1 c2 c3")))
    else:
        fs = [S.reals("m1 c1"), S.reals("m2 c2"), S.reals("m3 c3")]
    envelope(S, fs, DOMS[k], None, kind)


def h_four(S, kind, slopes):
    """Constant bound against three functions which all cross each other."""
    top = F(10 if kind == "min" else -10)
    c = [S.real(f"c{i}", lo=-5, hi=5) for i in (1, 2, 3)]
    fs = [(F(0), top)] + [(F(m), v) for m, v in zip(slopes, c)]
    envelope(S, fs, [(F(0), F(1), True, False)] * 4, None, kind)


def h_self(S, kind):
    """A function compared with itself, and with a list naming one function twice."""
    m, c, l, h, x = S.reals("m c l h x")
    m2, c2 = S.reals("m2 c2")
    S.assume(l < h)
    f = Affine(m, c, Interval(l, h, True, False))
    g = Affine(m2, c2, Interval(l, h, True, False))
    op = f.min_with if kind == "min" else f.max_with
    for fs, us in (([f], [m * x + c]), ([g, g], [m * x + c, m2 * x + c2]), ([f, g], [m * x + c, m2 * x + c2])):
        res = op(fs)
        ins = [inside(x, (p.domain.x0, p.domain.x1, p.domain.include_lower, p.domain.include_upper)) for p in res]
        S.check(Iff(And(l <= x, x < h), Or(ins)), "covered wherever a function is defined, and only there")
        for p, i in zip(res, ins):
            v = p.m * x + p.c
            S.check(Implies(i, And([(v <= u) if kind == "min" else (v >= u) for u in us] + [Or([v == u for u in us])])), "the piece is the " + kind)
        S.check(And([Not(And(u, w)) for i, u in enumerate(ins) for w in ins[:i]]), "pieces are disjoint")


def h_label(S, kind):
    fs = [S.reals("m1 c1"), S.reals("m2 c2")]
    d = (F(0), F(1), True, True)
    envelope(S, fs, [d, d], None, kind, ["a", "b"])


def h_at(S):
    m, c, l, h, x = S.reals("m c l h x")
    S.assume(l <= h)
    d = (l, h, S.boolean("a"), S.boolean("b"))
    f = Affine(m, c, Interval(*d))
    v = f.at(x)
    if v is None:
        S.check(Not(inside(x, d)), "undefined only outside the domain")
    else:
        S.check(And(inside(x, d), v == m * x + c), "value")
    S.check(f.at(x, extend_domain=True) == m * x + c, "extended value")


def h_inter(S):
    m, c, m2, c2 = S.reals("m c m2 c2")
    f = Affine(m, c, Interval(F(0), F(1), True, True))
    g = Affine(m2, c2, Interval(F(1, 2), F(2), True, True))
    r = f.intersection(g)
    x = S.real("x")
    meets = And(m != m2, m * x + c == m2 * x + c2, x >= F(1, 2), x <= 1)
    if r is None:
        S.check(Not(meets), "no crossing in the common domain")
    else:
        S.check(And(m * r + c == m2 * r + c2, r >= F(1, 2), r <= 1), "crossing point")
        S.check(Implies(meets, x == r), "the only crossing")


HARNESSES = {"two": h_two, "crop": h_crop, "three": h_three, "four": h_four, "self": h_self, "label": h_label, "at": h_at, "inter": h_inter}


def tasks(tier):
    H = [F(0), F(1), F(1, 2), F(1, 4), F(3, 4), F(1, 3), F(2), F(3, 2)]
    th = tier != "quick"
    out = [{"h": "at"}, {"h": "inter"}]
    for kind in ("min", "max"):
        out += [{"h": "two", "cfg": {"kind": kind, "b1": a, "b2": b}, "budget": 600, "weight": 2}
                for a in range(4) for b in range(4)
                if th or (a, b) in (((0, 0), (1, 2)) if kind == "min" else ((1, 1), (2, 0), (0, 2)))]
        out += [{"h": "crop", "cfg": {"kind": kind, "bc": b, "fixed": f}, "budget": 900, "hash_consts": H, "weight": 5 - f}
                for b in ((1,) if kind == "min" else (2,)) + ((0, 3) if th else ()) for f in ((1, 0) if th else (1,))]
        out += [{"h": "three", "cfg": {"kind": kind, "k": 0, "slopes": sl}, "budget": 600, "hash_consts": H, "weight": 3}
                for sl in ((0, 1, -1), (1, 2, 3), (0, 0, 1))]
        out += [{"h": "three", "cfg": {"kind": kind, "k": k, "slopes": None if th else ((2, -1, 1) if k == 1 else (1, 0, 1))},
                 "budget": 600, "hash_consts": H, "weight": 3} for k in (1, 2)]
        out += [{"h": "self", "cfg": {"kind": kind}, "budget": 300, "hash_consts": H, "weight": 2}]
        out += [{"h": "four", "cfg": {"kind": kind, "slopes": sl}, "budget": 900, "hash_consts": H, "weight": 5}
                for sl in (((1, 0, -1), (-1, 2, 1)) if th else ((1, 0, -1),))]
        out += [{"h": "label", "cfg": {"kind": kind}, "hash_consts": H}]
    return out
