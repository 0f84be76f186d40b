"""Large value estimates: from bounds to regions, raising to a power, dates and text."""
from symx.harness import F, And, Or, Not, Implies, Iff
from symx import symcdd
from checks import hyp, reg
from checks.common import parse_lin
from constants import Constants
from hypotheses import Hypothesis
from reference import Reference
from region import Region
import large_values as LV

T, L = Constants.TAU_UPPER_LIMIT, Constants.LV_DEFAULT_UPPER_BOUND
BOUNDS = ("1-4 bounds with fixed slopes and arbitrary constants, or 1-2 bounds with arbitrary slopes; every point (sigma, tau, rho); every positive power k; "
          "every pair of years")
ASSUMPTIONS = ["with arbitrary slopes, removing redundant rows of a polytope is taken to keep the described set (that is property P01)"]


def box(x):
    s, t, r = x
    return And(s >= F(1, 2), s <= 1, t >= 0, t <= T, r >= 0, r <= L)


def below(bs, x):
    s, t, r = x
    return Or([r <= b[0] + b[1] * s + b[2] * t for b in bs])


def bounds(S, slopes, cs=None):
    out = []
    for i, sl in enumerate(slopes):
        c = S.real(f"c{i}") if cs is None or cs[i] is None else F(cs[i])
        if sl is None:
            out.append([c, S.real(f"a{i}"), S.real(f"b{i}")])
        else:
            out.append([c, F(sl[0]), F(sl[1])])
    return out


def begin(slopes):
    symcdd.KEEP_SYMBOLIC_NORMALS = any(s is None for s in slopes)


def make(S, slopes, how, ref):
    bs = bounds(S, slopes)
    arg = [list(b) for b in bs]
    if how == "convert":
        e = LV.convert_bounds(arg)
    elif how == "literature":
        h = LV.literature_bound_LV_max(arg, ref, params=" (p)")
        S.check(h.hypothesis_type == "Large value estimate" and h.reference is ref and not h.dependencies, "a literature estimate")
        S.check("(p)" in h.name and ref.author() in h.name, "named after its source")
        e = h.data
    else:
        h = LV.classical_LV_estimate(arg) if how == "classical" else LV.conjectured_LV_estimate(arg, "my conjecture")
        S.check(h.hypothesis_type == "Large value estimate" and not h.dependencies, "a stand-alone estimate")
        S.check(h.reference.year() == (Reference.classical() if how == "classical" else Reference.conjectured()).year(), "classical or conjectured")
        S.check(how == "classical" or h.name == "my conjecture", "name")
        e = h.data
    S.check(And([u == v for a, b in zip(arg, bs) for u, v in zip(a, b)]), "the given bounds are unchanged")
    return bs, e


def h_region(S, slopes, how):
    hyp.begin_any(S)
    begin(slopes)
    bs, e = make(S, slopes, how, hyp.REF[0])
    x = S.reals("s t r")
    S.check(Iff(reg.mem(e.region, x), And(box(x), below(bs, x))), "the region is all points of the default domain below the largest bound")
    S.cover("inside", And(box(x), below(bs, x)))


def h_text(S, slopes):
    begin(slopes)
    bs = bounds(S, slopes)
    e = LV.convert_bounds([list(b) for b in bs])
    s = repr(e)
    S.check(s.startswith("ρ <= "), "shows an upper bound for rho")
    s = s[len("ρ <= "):]
    if len(bs) > 1:
        S.check(s.startswith("max(") and s.endswith(")"), "shows the maximum")
        parts = s[4:-1].split(", ")
    else:
        parts = [s]
    S.check(len(parts) == len(bs), "one entry per bound")
    for p, b in zip(parts, bs):
        got = parse_lin(p, ["σ", "τ"]) if p else [F(0)] * 3
        S.check(got is not None and And([u == v for u, v in zip(got, b)]), "each displayed bound reads back as the given one")


def h_power(S, slopes, twice):
    hyp.begin_any(S)
    begin(slopes)
    k = S.real("k", lo=0, lo_open=True)
    y = S.real("y", lo=1800, hi=2030)
    bs = bounds(S, slopes)
    h = Hypothesis("given", "Large value estimate", LV.convert_bounds([list(b) for b in bs]), "given", Reference.make("X", y))
    tr = LV.raise_to_power_hypothesis(k)
    S.check(tr.hypothesis_type == "Large value estimate transform", "a transform")
    g = tr.data.transform(h)
    x = s, t, r = S.reals("s t r")
    want = And(box((s, t / k, r / k)), below(bs, (s, t / k, r / k)))
    S.check(Iff(reg.mem(g.data.region, x), want), "(sigma, k tau, k rho) is possible exactly when (sigma, tau, rho) is")
    S.check(g.hypothesis_type == "Large value estimate" and list(g.dependencies) == [h], "rests on the given estimate")
    S.check(g.reference.year() == y, "dated like the given estimate")
    S.check(Iff(reg.mem(h.data.region, x), And(box(x), below(bs, x))), "the given estimate is unchanged")
    # the transform again, for another estimate of the same name
    o = Hypothesis("given", "Large value estimate", LV.convert_bounds([[F(1), F(-1), F(0)]]), "given", Reference.make("X", 1990))
    f = tr.data.transform(o)
    q = (s, t / k, r / k)
    S.check(Iff(reg.mem(f.data.region, x), And(box(q), below([[F(1), F(-1), F(0)]], q))), "the power of another estimate of the same name")
    S.check(list(f.dependencies) == [o] and f.reference.year() == 1990, "rests on it")
    S.check(Iff(reg.mem(g.data.region, x), want), "the first power is unchanged")
    if twice:
        m = S.real("m", lo=0, lo_open=True)
        f = LV.raise_to_power_hypothesis(m).data.transform(g)
        q = (s, t / k / m, r / k / m)
        S.check(Iff(reg.mem(f.data.region, x), And(box(q), below(bs, q))), "powers compose")
        S.check(list(f.dependencies) == [g], "each step rests on the one before")


def h_derived(S):
    hyp.begin_any(S)
    y, z = S.real("y", lo=1800, hi=2030), S.real("z", lo=1800, hi=2030)
    hs = [Hypothesis("a", "Large value estimate", LV.convert_bounds([[F(2), F(-2), F(0)]]), "", Reference.make("X", y)),
          Hypothesis("b", "Large value estimate", LV.convert_bounds([[F(2), F(-2), F(0)]]), "", Reference.make("Y", z))]
    R = hs[0].data.region
    d = LV.derived_bound_LV(R, "why", set(hs))
    S.check(d.data.region is R and d.proof == "why" and d.hypothesis_type == "Large value estimate", "data and proof")
    S.check(set(map(id, d.dependencies)) == set(map(id, hs)), "rests on what was given")
    S.check(And(d.reference.year() >= y, d.reference.year() >= z, Or(d.reference.year() == y, d.reference.year() == z)), "dated by its latest source")


def h_const(S):
    x = S.reals("s t r")
    for h, bs in ((LV.large_value_estimate_L2, [[2, -2, 0], [1, -2, 1]]), (LV.montgomery_conjecture, [[2, -2, 0]])):
        S.check(Iff(reg.mem(h.data.region, x), And(box(x), below(bs, x))), f"{h.name}: the region of its theorem")
        S.check(h.hypothesis_type == "Large value estimate", "type")
    try:
        LV.Large_Value_Estimate([[2, -2, 0]])
    except ValueError:
        S.cover("rejected")
        return
    S.fail("anything but a region is refused")


HARNESSES = {"region": h_region, "text": h_text, "power": h_power, "derived": h_derived, "const": h_const}
HUX, GM, JUT = [[-2, 0], [-6, 1]], [[-2, 0], [-4, 0], [-4, 1]], [[-2, 0], ["-16/3", 1], [-24, 1]]


def tasks(tier):
    th = tier != "quick"
    o = [{"h": "derived"}, {"h": "const"}]
    bud = 900 if th else 90

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "budget": bud, "weight": weight, "hash_consts": [F(0), F(1)]})
    for how in ("convert", "literature", "classical", "conjectured"):
        add("region", slopes=HUX, how=how)
    for sl in ([[-2, 0]], [[0, 0]], [[-12, 2]], GM, JUT, [[-2, 0], [-2, 1]], [[0, 1]], [[-2, 0], [-2, 0]], GM + [[-8, 2]]):
        add("region", slopes=sl, how="convert")
    add("region", slopes=[None], how="convert")
    add("region", slopes=[None, [-2, 0]], how="convert")
    add("region", slopes=[[-2, 0], None], how="literature")
    add("region", slopes=[None, None], how="convert")
    for sl in ([[-2, 0]], HUX, [[0, 0]], [[0, 1], [1, -1]], GM, [None], [None, [-2, 0]]):
        add("text", slopes=sl)
    for sl in ([[-2, 0]], HUX, GM, [None], [None, [-2, 0]]):
        add("power", slopes=sl, twice=False)
    add("power", slopes=HUX, twice=True)
    if th:
        add("region", slopes=[None, None, None], how="convert", weight=6)
        add("power", slopes=[None, None], twice=True, weight=6)
    return o
