"""The best zero density and zero density energy estimates, and the trivial energy estimates."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from checks.common import value, horner
from functions import Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import zero_density_energy_estimate as ZE
import zero_density_estimate as ZD

BOUNDS = ("1-3 estimates (constants, affine functions and quotients of affine functions without poles on their ranges, up to 2 arbitrary coefficients, or up to 2 arbitrary end points), every sigma in [1/2, 1]; "
          "2-4 pieces with one arbitrary coefficient for simplify")
ASSUMPTIONS = ["no estimate has a pole on its own range except at its right end", "values stay below the placeholder 1000000",
               "end points of ranges and pieces are not judged (ranges are half-open)"]
NONE = 1000000
H0 = [F(7, 10), F(0), F(1), F(1, 2), F(3, 4), F(3, 5), F(2, 3), F(9, 10), F(2), F(3)]


def fn(S, i, spec):
    """spec: ([num], [den]); '?' is an arbitrary coefficient in [-10, 10]."""
    out = []
    for part, name in zip(spec, "nd"):
        out.append([S.real(f"{name}{i}_{j}", lo=-10, hi=10) if c == "?" else F(c) for j, c in enumerate(part)])
    return out


def ivs(S, doms):
    out = []
    for i, d in enumerate(doms):
        e = [S.real(f"e{i}_{j}", lo=F(1, 2), hi=1) if v == "?" else F(v) for j, v in enumerate(d)]
        S.assume(e[0] < e[1])
        out.append(tuple(e))
    return out


def start(S, specs, doms):
    hyp.begin_any(S)
    x = S.real("x")
    S.assume(And(x > F(1, 2), x < 1))
    f = [fn(S, i, s) for i, s in enumerate(specs)]
    d = ivs(S, doms)
    for lo, hi in d:
        S.assume(And(x != lo, x != hi))
    return x, f, d


def at(f, x):
    """(numerator, denominator) at x."""
    return horner(f[0], x), horner(f[1], x)


def le(u, f, x):
    """u <= f(x)"""
    p, q = at(f, x)
    return (u * q - p) * q <= 0


def judge(S, x, best, fs, ds, hs, cls, kind):
    within = [And(x > lo, x < hi) for lo, hi in ds]
    ins = []
    for b in best:
        I = b.data.interval
        c = And(x > I.x0, x < I.x1)
        ins.append(c)
        S.check(isinstance(b.data, cls), "the result is an estimate of the right kind")
        S.check(b.hypothesis_type == kind, "of the right type")
        S.check(And(I.x0 >= F(1, 2), I.x1 <= 1, I.x0 < I.x1), "on a piece of [1/2, 1]")
        if not bool(c):
            continue
        v = value(b.data.at(x))
        S.observe("v", v)
        if not bool(Or(within)):
            S.check(v == NONE, "the placeholder is used where nothing applies")
            S.check("laceholder" in b.name, "and is called a placeholder")
            continue
        S.check(And([Implies(w, le(v, f, x)) for w, f in zip(within, fs)]), "no estimate is better")
        src = [And(w, v * at(f, x)[1] == at(f, x)[0]) for w, f, h in zip(within, fs, hs)
               if h.name == b.name and h.proof == b.proof and h.reference is b.reference]
        S.check(Or(src), "name, proof and reference are those of an estimate attaining the bound")
    S.check(Or(ins + [Or(x == b.data.interval.x0, x == b.data.interval.x1) for b in best]), "every sigma is covered")
    S.check(And([Not(And(a, b)) for i, a in enumerate(ins) for b in ins[:i]]), "pieces do not overlap")


def h_best(S, kind, specs, doms):
    x, fs, ds = start(S, specs, doms)
    mod, cls, ty = (ZD, ZD.Zero_Density_Estimate, "Zero density estimate") if kind == "A" else (ZE, ZE.Zero_Density_Energy_Estimate, "Zero density energy estimate")
    other = "Zero density energy estimate" if kind == "A" else "Zero density estimate"
    ocls = ZE.Zero_Density_Energy_Estimate if kind == "A" else ZD.Zero_Density_Estimate
    hs = []
    for i, (f, d) in enumerate(zip(fs, ds)):
        hs.append(Hypothesis(f"estimate {i}", ty, cls.from_rational_func(RF(*[list(u) for u in f]), Interval(*d)), f"proof {i}", Reference.make("X", 1990 + i)))
    # an estimate of the other kind must not be used
    noise = Hypothesis("other", other, ocls.from_rational_func(RF([-5]), Interval(F(1, 2), F(1))), "", Reference.make("Y", 1950))
    hset = Hypothesis_Set(hs + [noise])
    order = hset.list_hypotheses(hypothesis_type=ty)
    S.check(len(order) == len(hs), "estimates listed")
    best = mod.best_zero_density_estimate(hset) if kind == "A" else mod.compute_best_energy_bound(hset)
    judge(S, x, best, fs, ds, hs, cls, ty)
    S.check(And(len(hset) == len(hs) + 1, all(h in hset for h in hs)), "the given hypotheses are unchanged")
    for h, f, d in zip(hs, fs, ds):
        S.check(And(h.data.interval.x0 == d[0], h.data.interval.x1 == d[1]), "ranges unchanged")


TEXT = [("3/(2-x)", [3], [-1, 2]), ("2.5", ["5/2"], [1]), ("4 - 2*x", [-2, 4], [1]), ("15/(3+5*x)", [15], [5, 3]), ("2", [2], [1])]


def h_text(S, kind, pick):
    """Estimates given as expressions, with arbitrary ranges."""
    fs = [[[F(c) for c in TEXT[i][1]], [F(c) for c in TEXT[i][2]]] for i in pick]
    x, _, ds = start(S, [], [("1/2", "?")] * (len(pick) - 1) + [("?", "1") if len(pick) > 1 else ("?", "?")])
    mod, cls, ty = (ZD, ZD.Zero_Density_Estimate, "Zero density estimate") if kind == "A" else (ZE, ZE.Zero_Density_Energy_Estimate, "Zero density energy estimate")
    hs = []
    hset = Hypothesis_Set()
    for n, (i, d) in enumerate(zip(pick, ds)):
        ref = Reference.make("X", 1990 + n)
        if kind == "A":
            ZD.add_zero_density(hset, TEXT[i][0], Interval(*d), ref, params=f" number {n}")
        else:
            hset.add_hypothesis(ZE.literature_zero_density_energy_estimate(TEXT[i][0], Interval(*d), ref, params=f" number {n}"))
        h = [h for h in hset if h.name.endswith(f"number {n}")]
        S.check(len(h) == 1, "the estimate is added")
        h = h[0]
        S.check(And(h.hypothesis_type == ty, h.reference is ref, h.name == f"{ref.author()} ({ref.year()}) {ty.lower()} number {n}"), "type, name and reference of the estimate")
        hs.append(h)
    for h, f, (lo, hi) in zip(hs, fs, ds):
        try:
            v = value(h.data.at(x))
        except ValueError:
            S.check(Not(And(x >= lo, x < hi)), "only points outside the range are refused")
            continue
        S.check(And(x >= lo, x <= hi), "points outside the range are refused")
        p, q = at(f, x)
        S.check(v * q == p, "the estimate at a point is the given expression")
    best = mod.best_zero_density_estimate(hset) if kind == "A" else mod.compute_best_energy_bound(hset)
    judge(S, x, best, fs, ds, hs, cls, ty)


def h_trivial(S, specs, doms, text):
    """A*(x) <= 3 A(x) and A*(x) <= 3 / (1 - x)."""
    x, fs, ds = start(S, specs, doms)
    S.assume(x < F(99999, 100000))
    hs = []
    hset = Hypothesis_Set()
    for i, (f, d) in enumerate(zip(fs, ds)):
        hs.append(Hypothesis(f"estimate {i}", "Zero density estimate", ZD.Zero_Density_Estimate.from_rational_func(RF(*[list(u) for u in f]), Interval(*d)), "", Reference.make("X", 1990 + i)))
    hset.add_hypotheses(hs)
    for i, d in zip(text, ds[len(specs):]):
        ZD.add_zero_density(hset, TEXT[i][0], Interval(*d), Reference.make("Z", 1980), params=f" number {i}")
        hs.append([h for h in hset if h.name.endswith(f"number {i}")][0])
        fs.append([[F(c) for c in TEXT[i][1]], [F(c) for c in TEXT[i][2]]])
    ZE.add_trivial_zero_density_energy_estimates(hset)
    new = hset.list_hypotheses(hypothesis_type="Zero density energy estimate")
    S.check(len(new) == len(hs) + 1, "one energy estimate per zero density estimate, and 3/(1-x)")
    S.check(len(hset) == len(hs) + len(new), "nothing else is added")
    free = [h for h in new if not h.dependencies]
    S.check(len(free) == 1, "only 3/(1-x) rests on nothing")
    S.check(value(free[0].data.at(x)) * (1 - x) == 3, "3/(1-x)")
    S.check(And(free[0].data.interval.x0 == F(1, 2), free[0].data.interval.x1 == 1), "3/(1-x) holds on [1/2, 1)")
    for h, f, (lo, hi) in zip(hs, fs, ds):
        t = [n for n in new if n.dependencies == {h}]
        S.check(len(t) == 1, "one energy estimate rests on each zero density estimate")
        I = t[0].data.interval
        S.check(And(I.x0 == lo, I.x1 == hi), "on the same range")
        if bool(And(x > lo, x < hi)):
            v = value(t[0].data.at(x))
            p, q = at(f, x)
            S.check(v * q == 3 * p, "three times the zero density estimate")
            S.observe("v", v)
    # and they combine
    best = ZE.compute_best_energy_bound(hset)
    judge(S, x, best, [[[3 * c for c in f[0]], f[1]] for f in fs] + [[[F(3)], [F(-1), F(1)]]], ds + [(F(1, 2), F(1))],
          [n for h in hs for n in new if n.dependencies == {h}] + free, ZE.Zero_Density_Energy_Estimate, "Zero density energy estimate")


def h_derived(S, kind, n):
    """Derived estimates are dated like their latest source and rest on all of them."""
    ys = [S.int(f"y{i}", 1990, 1992) for i in range(n)]
    f = [[S.real("a", lo=-10, hi=10)], [F(5), F(-3)]]
    lo = S.real("lo", lo=F(7, 10), hi=F(9, 10))
    x = S.real("x")
    S.assume(And(x > lo, x < 1))
    deps = {Hypothesis(f"d{i}", "Large value estimate", None, "", Reference.make("X", y)) for i, y in enumerate(ys)}
    cls, mk = (ZD.Zero_Density_Estimate, ZD.derived_zero_density_estimate) if kind == "A" else (ZE.Zero_Density_Energy_Estimate, ZE.derived_zero_density_energy_estimate)
    h = mk(cls.from_rational_func(RF(*[list(u) for u in f]), Interval(lo, F(1))), "the proof", deps)
    S.check(h.dependencies == deps, "dependencies")
    S.check(h.proof == "the proof", "proof")
    S.check(h.hypothesis_type == ("Zero density estimate" if kind == "A" else "Zero density energy estimate"), "type")
    y = h.reference.year()
    S.check(And(Or([y == w for w in ys]), And([y >= w for w in ys])), "the year is that of the latest source")
    S.check(value(h.data.at(x)) * (5 * x - 3) == f[0][0], "value")


def h_simplify(S, pattern, gap):
    """pattern: per piece the index of its function; functions 0.. with an arbitrary coefficient each."""
    k = max(pattern) + 1
    c = S.reals([f"c{i}" for i in range(k)])
    g = S.real("g", lo=0, hi=1) if gap else F(0)
    x = S.real("x")
    cuts = [F(i) for i in range(len(pattern) + 1)]
    pieces, fs, ds = [], [], []
    for i, p in enumerate(pattern):
        lo = cuts[i] + (g if i == 1 else 0)
        S.assume(lo < cuts[i + 1])
        f = [[c[p], F(1)], [F(1), F(3)]] if p % 2 == 0 else [[c[p]], [F(1)]]
        fs.append(f)
        ds.append((lo, cuts[i + 1]))
        pieces.append((RF(*[list(u) for u in f]), Interval(lo, cuts[i + 1])))
        S.assume(And(x != lo, x != cuts[i + 1]))
    S.assume(And(x > 0, x < len(pattern)))
    res = ZD.simplify(list(pieces))
    for (f, I), (lo, hi) in zip(pieces, ds):
        S.check(And(I.x0 == lo, I.x1 == hi), "the given pieces are unchanged")
    ins = []
    for f, I in res:
        w = And(x > I.x0, x < I.x1)
        ins.append(w)
        if bool(w):
            v = value(f.at(x))
            S.check(Or([And(x > lo, x < hi, v * at(g_, x)[1] == at(g_, x)[0]) for g_, (lo, hi) in zip(fs, ds)]), "the same function")
    S.check(Iff(Or([And(x > lo, x < hi) for lo, hi in ds]), Or(ins + [And(x > r[1].x0, x <= r[1].x1) for r in res])), "the same domain")
    S.check(And([Not(And(a, b)) for i, a in enumerate(ins) for b in ins[:i]]), "no overlaps")
    for a, b in zip(res, res[1:]):
        S.check(Not(And(a[1].x1 == b[1].x0, bool(a[0] == b[0]))), "equal neighbours are merged")


# the default bound 1000000/1 is a float, and so are its crossings with the estimates
EXACT_FLOATS = True
HARNESSES = {"best": h_best, "text": h_text, "trivial": h_trivial, "derived": h_derived, "simplify": h_simplify}


def tasks(tier):
    A, B = ("1/2", "1"), ("3/5", "9/10")
    c, q, lin = (["?"], [1]), (["?"], [1, 1]), (["?", "?"], [1])
    k2, k3, r3 = ([2], [1]), ([3], [-1, 2]), ([3], [5, 3])
    out = []
    for kind in ("A", "A*"):
        if tier == "thorough":
            out.append({"h": "best", "cfg": {"kind": kind, "specs": [lin, r3], "doms": [A, B]}, "budget": 600})
        for specs, doms in ([[], []], [[c], [A]], [[c], [("?", "?")]], [[k2, k3], [A, ("?", "?")]], [[c, c], [A, B]], [[c, q], [B, A]], [[c, r3], [A, B]], [[q, r3], [A, A]],
                            [[k2, r3, c], [A, B, A]], [[k2, k2], [("1/2", "?"), ("?", "1")]], [[k3, r3], [("1/2", "?"), ("3/4", "1")]]):
            out.append({"h": "best", "cfg": {"kind": kind, "specs": specs, "doms": doms}})
        for pick in ([0], [3, 0], [4, 2]) + (([3, 0, 4],) if tier == "thorough" else ()):
            out.append({"h": "text", "cfg": {"kind": kind, "pick": pick}})
        out += [{"h": "derived", "cfg": {"kind": kind, "n": n}} for n in (1, 2, 3)]
    for specs, doms, text in ([[c], [A], []], [[q], [B], []], [[], [("?", "1")], [0]], [[c], [A, ("1/2", "?")], [3]], [[], [], []]):
        out.append({"h": "trivial", "cfg": {"specs": specs, "doms": doms, "text": text}})
    for p in ([0], [0, 0], [0, 1], [0, 1, 0], [0, 2], [0, 0, 2], [0, 0, 1, 1]):
        out += [{"h": "simplify", "cfg": {"pattern": p, "gap": g}} for g in ((False, True) if len(p) > 1 else (False,))]
    for t in out:
        t.setdefault("budget", 200)
        t.setdefault("hash_consts", H0)
    return out
