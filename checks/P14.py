"""RationalFunction.min / max: optimal piece and the reference to where it comes from."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks.common import value, horner
from functions import RationalFunction as RF, Interval

BOUNDS = ("2 affine functions with arbitrary coefficients (in the thorough tier: one domain arbitrary too); 2 fixed functions on one (thorough: two) arbitrary domains; 2 quotients of affine "
          "functions (one or two arbitrary coefficients) without poles on overlapping domains; 3 affine "
          "functions with arbitrary intercepts; an arbitrary point that is not an end point of a domain or "
          "piece (the pieces are half-open)")
ASSUMPTIONS = ["no function has a pole inside its own domain (the documented use: proved bounds on a finite range)",
               "values stay below the built-in default of +-1000000"]


def run(S, funcs, doms, kind, dom, track=True, shared=False):
    """funcs: (num coeffs, den coeffs); doms: (lo, hi)."""
    fd = [(RF(p, q), Interval(lo, hi)) for (p, q), (lo, hi) in zip(funcs, doms)]
    if shared:
        # one function object, one domain object, listed several times
        fd = [(fd[0][0], I) for _, I in fd] + [fd[0]]
        funcs, doms = funcs + [funcs[0]], doms + [doms[0]]
    D = Interval(*dom)
    res = RF.min(fd, D, track) if kind == "min" else RF.max(fd, D, track)
    x = S.real("x")
    S.assume(And(x > dom[0], x < dom[1]))
    for lo, hi in doms:
        S.assume(And(x != lo, x != hi))
    within = [And(x > lo, x < hi) for lo, hi in doms]

    def leq(u, f):
        """u better-or-equal f(x), for a function given as (p, q) with q(x) of known sign"""
        p, q = horner(f[0], x), horner(f[1], x)
        d = (u * q - p) * q
        return d <= 0 if kind == "min" else d >= 0

    S.cover("defined", Or(within))
    ins = []
    quotient = any(len(q) > 1 for _, q in funcs)
    for r in res:
        f, I = r[0], r[1]
        c = And(x > I.x0, x < I.x1)
        ins.append(c)
        if quotient and not bool(c):
            continue
        v = value(f.at(x))
        S.check(Implies(c, And([Implies(w, leq(v, g)) for w, g in zip(within, funcs)])),
                "no applicable function is better")
        if track:
            ref = r[2]
            S.check(-1 <= ref < len(funcs), "reference in range")
            if ref == -1:
                S.check(Implies(c, Not(Or(within))), "the default is used only where nothing applies")
                S.check(v == (1000000 if kind == "min" else -1000000), "default value")
            else:
                p, q = funcs[ref]
                S.check(Implies(c, within[ref]), "the referenced function applies here")
                S.check(v * horner(q, x) == horner(p, x), "the piece equals the referenced function")
        else:
            S.check(Implies(c, Or([And(w, v * horner(q, x) == horner(p, x)) for w, (p, q) in zip(within, funcs)],
                                  And(Not(Or(within)), v == (1000000 if kind == "min" else -1000000)))),
                    "the piece is one of the applicable functions")
        S.observe("v", v)
    S.check(And([Not(And(u, w)) for i, u in enumerate(ins) for w in ins[:i]]), "pieces do not overlap")
    ends = Or([Or(x == r[1].x0, x == r[1].x1) for r in res])
    S.check(Or(ins, ends), "the whole domain is covered")
    S.check(And(res[0][1].x0 == dom[0], res[-1][1].x1 == dom[1]), "pieces span the domain")
    for a, b in zip(res, res[1:]):
        S.check(a[1].x1 == b[1].x0, "consecutive pieces meet")


ONE = [F(1)]


def h_affine(S, kind, track, fixed):
    f = [(S.reals("m1 c1"), ONE), (S.reals("m2 c2"), ONE)]
    for (m, c), _ in f:
        S.assume(And(m <= 100, m >= -100, c >= -100, c <= 100))
    l, h = (F(1, 2), F(3, 2)) if fixed else S.reals("l h")
    S.assume(l < h)
    run(S, f, [(F(0), F(1)), (l, h)], kind, (F(0), F(2)), track)


def h_dom(S, kind, fixed):
    f = [([F(1), F(0)], ONE), ([F(-1), F(1)], ONE)]
    l, h = S.reals("l h")
    a, b = (F(1, 4), F(3, 2)) if fixed else S.reals("a b")
    S.assume(And(l < h, a < b))
    run(S, f, [(l, h), (a, b)], kind, (F(0), F(2)))


def h_three(S, kind, slopes):
    f = [([F(m), c], ONE) for m, c in zip(slopes, S.reals("c1 c2 c3", lo=-100, hi=100))]
    run(S, f, [(F(0), F(1)), (F(0), F(1)), (F(1, 4), F(3, 4))], kind, (F(0), F(1)))


def h_quot(S, kind, mode):
    a, b = S.reals("a b", lo=-50, hi=50)
    if mode == 0:      # a/(x+1) vs b/(2x+1)
        f = [([a], [F(1), F(1)]), ([b], [F(2), F(1)])]
    elif mode == 1:    # 3/(x+1) vs a x + b
        f = [([F(3)], [F(1), F(1)]), ([a, b], ONE)]
    elif mode == 2:    # (x+a)/(x+2) vs (b x + 1)/(x+2)
        f = [([F(1), a], [F(1), F(2)]), ([b, F(1)], [F(1), F(2)])]
    else:              # pole outside of the domain: 1/(x-1/2) on [3/4,1), a/(2-x) on [0,1)
        f = [([a], [F(2), F(-1)]), ([b], [F(-1), F(2)])]
    d = [(F(0), F(1)), (F(1, 4), F(1))] if mode < 3 else [(F(3, 4), F(1)), (F(0), F(1))]
    run(S, f, d, kind, (F(0), F(1)))


def h_same(S, kind):
    """Equal functions from different sources: references stay valid."""
    m, c = S.reals("m c", lo=-50, hi=50)
    l = S.real("l", lo=0, hi=1)
    S.assume(And(l > 0, l < 1))
    run(S, [([m, c], ONE), ([m, c], ONE)], [(F(0), l), (l, F(1))], kind, (F(0), F(1)))


def h_shared(S, kind):
    m, c = S.reals("m c", lo=-50, hi=50)
    l = S.real("l", lo=0, hi=1)
    S.assume(And(l > 0, l < 1))
    run(S, [([m, c], ONE), ([m, c], ONE)], [(F(0), l), (F(1, 2), F(1))], kind, (F(0), F(1)), True, True)


HARNESSES = {"affine": h_affine, "dom": h_dom, "three": h_three, "quot": h_quot, "same": h_same, "shared": h_shared}
H = [F(0), F(1), F(2), F(1, 4), F(3, 4), F(1, 2), F(3, 2)]


def tasks(tier):
    out = []
    for k in ("min", "max"):
        out += [{"h": "affine", "cfg": {"kind": k, "track": t, "fixed": f}, "hash_consts": H, "budget": 900, "weight": 3} for t in (True, False)
                for f in ((1,) if tier == "quick" else (1, 0))]
        out += [{"h": "dom", "cfg": {"kind": k, "fixed": f}, "hash_consts": H, "budget": 900} for f in ((1,) if tier == "quick" else (1, 0))]
        out += [{"h": "three", "cfg": {"kind": k, "slopes": s}, "hash_consts": H, "budget": 400, "weight": 2} for s in ((0, 1, -1), (1, 2, 3), (2, 0, 0))]
        out += [{"h": "quot", "cfg": {"kind": k, "mode": m}, "hash_consts": H, "budget": 400} for m in range(4)]
        out += [{"h": "shared", "cfg": {"kind": k}, "hash_consts": H}]
        out += [{"h": "same", "cfg": {"kind": k}, "hash_consts": H}]
    return out
