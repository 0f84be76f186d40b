"""Large value energy regions: exponent pairs, powers, lifting, intersection and projection."""
from symx.harness import F, And, Or, Not, Implies, Iff
from symx import symcdd
from checks import geo, hyp, reg
from checks.P21 import bounds
from checks import P21
from constants import Constants
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
import additive_energy as AE
import large_values as LV

T, L = Constants.TAU_UPPER_LIMIT, Constants.LV_DEFAULT_UPPER_BOUND
BOUNDS = ("every point (sigma, tau, rho, rho*, s); every exponent pair in [0,1/2]x[1/2,1]; every positive power; intersections of 1-3 regions of 1-3 half spaces with fixed normals "
          "and up to 2 arbitrary constants; projections of 1-2 polytopes with up to 2 arbitrary constants")
ASSUMPTIONS = ["computed intersections keep pieces with interior: points on the boundary of a piece may go either way",
               "with arbitrary normals, removing redundant rows of a polytope is taken to keep the described set (that is property P01)"]
KINDS = {False: "Large value energy region", True: "Zeta large value energy region"}


def box5(x):
    s, t, r, e, d = x
    return And([s >= F(1, 2), s <= 1, t >= 0, t <= T] + [v >= 0 for v in (r, e, d)] + [v <= L for v in (r, e, d)])


def BOX():
    return AE.Large_Value_Energy_Region.default_constraints()


def half(S, tag, hps):
    """Half spaces [const, sigma, tau, rho, rho*, s] >= 0; const None: arbitrary, '?': one of VALUES."""
    return [[S.real(f"{tag}{i}") if h[0] is None else S.choice(f"{tag}{i}", VALUES) if h[0] == "?" else F(h[0])] + [F(a) for a in h[1:]] for i, h in enumerate(hps)]


def union_of(hps, x):
    return Or([geo.row_at(h, x) >= 0 for h in hps])


def lver(S, tag, hps, y, zeta=False):
    rows = half(S, tag, hps)
    h = Hypothesis(f"region {tag}", KINDS[zeta], AE.Large_Value_Energy_Region(Region.from_union_of_halfplanes([list(r) for r in rows], BOX())), "given", Reference.make("X", y))
    return rows, h


def h_box(S):
    x = S.reals("s t r e d")
    S.check(Iff(geo.inside(BOX(), [], x), box5(x)), "the default domain")
    S.check(all(len(r) == 6 for r in BOX()), "five variables")
    for bad in ("region", [[1, 2]], None):
        try:
            AE.Large_Value_Energy_Region(bad)
        except ValueError:
            continue
        S.fail("anything but a region is refused")


def h_ep(S):
    hyp.begin_any(S)
    symcdd.KEEP_SYMBOLIC_NORMALS = True
    k, l, y = S.real("k", lo=0, hi=F(1, 2)), S.real("l", lo=F(1, 2), hi=1), S.real("y", lo=1900, hi=2020)
    h = hyp.ep(k, l, Reference.make("X", y))
    g = AE.ep_to_lver(h)
    x = s, t, r, e, d = S.reals("s t r e d")
    n = 1 + 2 * k + 2 * l
    m1 = [r + 1, F(5, 3) * r + t / 3, ((2 + 3 * k + 4 * l) * r + (k + l) * t) / n]
    m2 = [e + 1, 4 * r, F(3, 4) * e + r + t / 2]
    want = And(box5(x), Or([e <= 1 - 2 * s + a / 2 + b / 2 for a in m1 for b in m2]))
    S.check(Iff(reg.mem(g.data.region, x), want), "rho* <= 1 - 2 sigma + max/2 + max/2 of the exponent pair theorem")
    S.check(g.hypothesis_type == KINDS[False] and list(g.dependencies) == [h], "rests on the exponent pair")
    S.check(g.reference.year() == y, "dated like the exponent pair")


def h_lit(S, zeta):
    R = Region.from_union_of_halfplanes([[F(1), F(-2), F(0), F(0), F(0), F(0)]], BOX())
    h = (AE.literature_zeta_large_value_energy_region if zeta else AE.literature_large_value_energy_region)(R, hyp.REF[0], " (p)")
    S.check(h.hypothesis_type == KINDS[zeta] and h.data.region is R and h.reference is hyp.REF[0] and not h.dependencies, "a literature estimate")
    y, z = S.real("y", lo=1800, hi=2030), S.real("z", lo=1800, hi=2030)
    hs = {Hypothesis("a", KINDS[zeta], h.data, "", Reference.make("X", y)), Hypothesis("b", KINDS[zeta], h.data, "", Reference.make("X", z))}
    g = (AE.derived_zeta_large_value_energy_region if zeta else AE.derived_large_value_energy_region)(h.data, "why", hs)
    R3 = Region.from_polytope(Polytope([[F(1), F(-1), F(0), F(0)], [F(0), F(1), F(1), F(-1)]]))
    a = AE.derived_additive_energy_estimate(R3, "why", hs, zeta)
    for q, ty, rr in ((g, KINDS[zeta], R), (a, "Additive energy estimate", R3)):
        S.check(q.hypothesis_type == ty and q.data.region is rr and q.dependencies == hs, "a derived estimate rests on its sources")
        S.check(And(q.reference.year() >= y, q.reference.year() >= z, Or(q.reference.year() == y, q.reference.year() == z)), "dated by its latest source")
    x = S.reals("s t r e d")
    S.check(h.data.contains([F(3, 4), F(2), F(1), F(1), F(1)]) is False and h.data.contains([F(1, 2), F(2), F(1), F(1), F(1)]) is True, "contains")
    try:
        h.data.contains([F(1)] * 3)
    except ValueError:
        return
    S.fail("a point of another dimension is refused")


def h_power(S, hps, expand):
    hyp.begin_any(S)
    symcdd.KEEP_SYMBOLIC_NORMALS = True
    y = S.real("y", lo=1900, hi=2020)
    k = S.real("k", lo=0, lo_open=True)
    rows, h = lver(S, "c", hps, y)
    tr = AE.get_raise_to_power_hypothesis(k)
    S.check(tr.hypothesis_type == "Large value energy region transform", "a transform")
    if expand:
        z = Hypothesis("z", KINDS[True], h.data, "", hyp.REF[0])
        H = Hypothesis_Set([h, tr, z])
        AE.expand_lver(H)
        new = [q for q in H if q not in (h, tr, z)]
        S.check(len(new) == 1 and len(H) == 4, "adds the power of every region that is not only for zeta")
        g = new[0]
    else:
        # another region of the same name comes first
        o = Hypothesis(h.name, h.hypothesis_type, AE.Large_Value_Energy_Region(Region.from_polytope(Polytope.rect(*[(F(1, 2), F(1))] * 5))), "", h.reference)
        p = tr.data.transform(o)
        g = tr.data.transform(h)
        S.check(list(p.dependencies) == [o], "rests on its own region")
    x = S.reals("s t r e d")
    q = [x[0]] + [v / k for v in x[1:]]
    S.check(Iff(reg.mem(g.data.region, x), And(box5(q), union_of(rows, q))), "(sigma, k tau, k rho, k rho*, k s) is possible exactly when (sigma, tau, rho, rho*, s) is")
    S.check(Iff(reg.mem(h.data.region, x), And(box5(x), union_of(rows, x))), "the given region is unchanged")
    S.check(g.hypothesis_type == KINDS[False] and list(g.dependencies) == [h] and g.reference.year() == y, "type, source and date")


def h_lift(S, slopess, zeta):
    hyp.begin_any(S)
    ty = ("Zeta large value estimate", "Large value estimate")
    y = S.real("y", lo=1900, hi=2020)
    hs, bss = [], []
    for i, sl in enumerate(slopess):
        bs = [[S.real(f"c{i}_{j}")] + [F(a) for a in v] for j, v in enumerate(sl)]
        bss.append(bs)
        hs.append(Hypothesis(f"h{i}", ty[0 if zeta else 1], LV.convert_bounds([list(b) for b in bs]), "", Reference.make("X", y)))
    other = Hypothesis("other", ty[1 if zeta else 0], LV.convert_bounds([[F(2), F(-2), F(0)]]), "", hyp.REF[0])
    out = AE.lv_to_lver(Hypothesis_Set(hs + [other]), zeta=zeta)
    S.check(len(out) == len(hs), "one region for every estimate")
    x = S.reals("s t r e d")
    for i, h in enumerate(hs):
        g = [o for o in out if list(o.dependencies) == [h]]
        S.check(len(g) == 1, "rests on its estimate")
        S.check(Iff(reg.mem(g[0].data.region, x), And(box5(x), P21.below(bss[i], x[:3]))), "the estimate for rho, rho* and s free")
        S.check(g[0].hypothesis_type == KINDS[zeta] and g[0].reference.year() == y, "type and date")


def dom_rows(dom):
    (a, b), (c, d) = dom
    return [[-a, F(1), F(0)], [b, F(-1), F(0)], [-c, F(0), F(1)], [d, F(0), F(-1)]]


def h_best(S, given, zetas, power, zeta, dom, fn="best"):
    """given, zetas: lists of half space lists; power: the power of a transform in the set, or None."""
    hyp.begin_any(S)
    dom = [[S.real(f"D{i}{j}", lo=(F(1, 2), 0)[i], hi=(1, 5)[i]) if v is None else F(v) for j, v in enumerate(p)] for i, p in enumerate(dom)]
    S.assume(And(dom[0][0] < dom[0][1], dom[1][0] < dom[1][1]))
    A = [lver(S, f"c{i}", h, 1990 + i) for i, h in enumerate(given)]
    B = [lver(S, f"z{i}", h, 2000 + i, zeta=True) for i, h in enumerate(zetas)]
    hs = [h for _, h in A + B]
    tr = [AE.get_raise_to_power_hypothesis(power)] if power else []
    H = Hypothesis_Set(hs + tr)
    D = Region.from_polytope(Polytope([list(r) for r in dom_rows(dom)]))
    x = s, t, r, e, d = S.reals("s t r e d")
    base = [[-lo] + [F(j == i) for j in range(5)] for i, (lo, hi) in enumerate(dom + [[F(0), F(L)]] * 3)] + \
           [[hi] + [-F(j == i) for j in range(5)] for i, (lo, hi) in enumerate(dom + [[F(0), F(L)]] * 3)]
    cons = [(rows, x) for rows, _ in A] + ([(rows, [s] + [v / F(power) for v in x[1:]]) for rows, _ in A] if power else []) + ([(rows, x) for rows, _ in B] if zeta else [])

    def want(strict):
        def row(rr, v):
            u = geo.row_at(rr, v)
            return u > 0 if strict else u >= 0
        def boxs(v):
            return And([row(b, v) for b in BOX()])
        return And([row(b, x) for b in base] + [And(boxs(v), Or([row(rr, v) for rr in rows])) for rows, v in cons])

    n0 = len(H)
    if fn == "best":
        g = AE.compute_best_lver(H, D, zeta=zeta)
        m = reg.mem(g.data.region, x)
        S.check(Implies(m, want(False)), "contains only points allowed by every region of the set")
        S.check(Implies(want(True), m), "contains every point allowed by every region of the set")
        S.check(g.hypothesis_type == KINDS[zeta], "type")
        prim = set()
        for q in g.dependencies:
            prim |= {q} if q in hs else set(q.dependencies)
        S.check(prim == set([h for _, h in A] + ([h for _, h in B] if zeta else [])), "rests on the regions that were used")
        S.check(g.reference.year() == max([1990 + i for i in range(len(A))] + [2000 + i for i in range(len(B) if zeta else 0)]), "date")
    else:
        g = AE.compute_LV_star(H, D, debug=False, zeta=zeta)
        # solve for (rho, s) at (sigma, tau, rho*) = (s, t, e)
        import itertools
        def solvable(strict):
            alts = []
            for pick in itertools.product(*[range(len(rows)) for rows, _ in cons]):
                rs = [list(b) for b in base]
                for (rows, v), i in zip(cons, pick):
                    f = F(1) if v is x else F(1) / power
                    for b in BOX() + [rows[i]]:
                        rs.append([b[0], b[1]] + [c * f for c in b[2:]])
                fix = [[rr[0] + rr[1] * s + rr[2] * t + rr[4] * e, rr[3], rr[5]] for rr in rs]
                alts.append((geo.nonempty_strict if strict else geo.nonempty)(fix, [], 2))
            return Or(alts)
        if g is None:
            S.check(Not(solvable(True)), "None only when nothing is allowed")
        else:
            m = reg.mem(g.data.region, (s, t, e))
            S.check(Implies(m, solvable(False)), "only values of rho* that occur")
            S.check(Implies(solvable(True), m), "every value of rho* that occurs")
            S.check(g.hypothesis_type == KINDS[zeta], "type")
    S.check(len(H) == n0, "the set is unchanged")


PROJ = {"lv": ((0, 1, 2), (3, 4)), "energy": ((0, 1, 3), (2, 4))}


def h_proj(S, polys, what, zeta, kind="U"):
    """polys: lists of extra rows added to a box of five variables."""
    hyp.begin_any(S)
    y = S.real("y", lo=1900, hi=2020)
    B = [[F(-1, 2), 1, 0, 0, 0, 0], [F(1), -1, 0, 0, 0, 0]] + [[F(0)] + [int(j == i) for j in range(5)] for i in range(1, 5)] + \
        [[F(4)] + [-int(j == i) for j in range(5)] for i in range(1, 5)]
    rows = [[[F(v) for v in b] for b in B] + half(S, f"c{i}", p) for i, p in enumerate(polys)]
    ps = [Region.from_polytope(Polytope([list(r) for r in rr])) for rr in rows]
    R = ps[0] if kind == "P" else Region.intersect(ps) if kind == "I" else Region.union(ps) if kind == "U" else Region.disjoint_union(ps)
    h = Hypothesis("given", KINDS[zeta], AE.Large_Value_Energy_Region(R), "", Reference.make("X", y))
    g = {"lv": AE.lver_to_lv, "energy": AE.lver_to_energy}[what](h)
    keep, drop = PROJ[what]
    x = S.reals("u v w")

    def solv(rr, strict):
        fix = [[q[0] + sum((q[1 + k] * a for k, a in zip(keep, x)), F(0))] + [q[1 + j] for j in drop] for q in rr]
        return (geo.nonempty_strict if strict else geo.nonempty)(fix, [], 2)
    groups = [sum(rows, [])] if kind == "I" else rows
    weak = Or([solv(rr, False) for rr in groups])
    strict = Or([solv(rr, True) for rr in groups])
    if g is None:
        S.check(Not(strict), "None only when the region is empty")
        return
    m = reg.mem(g.data.region, x)
    S.check(Implies(m, weak), "only values that occur")
    S.check(Implies(strict, m), "every value that occurs")
    ty = {("lv", False): "Large value estimate", ("lv", True): "Zeta large value estimate"}.get((what, zeta), "Additive energy estimate")
    S.check(g.hypothesis_type == ty and list(g.dependencies) == [h] and g.reference.year() == y, "type, source and date")


def h_reject(S):
    bad = Hypothesis("x", "Large value estimate", None, "", hyp.REF[0])
    for f in (AE.lver_to_lv, AE.lver_to_energy):
        for v in (bad, None):
            try:
                f(v)
            except ValueError:
                continue
            S.fail("anything but a large value energy region is refused")


HARNESSES = {"box": h_box, "ep": h_ep, "lit": h_lit, "power": h_power, "lift": h_lift, "best": h_best, "proj": h_proj, "reject": h_reject}
VALUES = [F(-1), F(0), F(1), F(3, 2), F(2), F(3), F(9, 2), F(20)]
ESTAR = [None, -2, 0, 1, -1, 0]     # rho* <= c - 2 sigma + rho
RHO = [None, -2, 0, -1, 0, 0]       # rho <= c - 2 sigma
RHOQ, ESTARQ = ["?"] + RHO[1:], ["?"] + ESTAR[1:]
DOM = [["1/2", "1"], ["1", "2"]]


def tasks(tier):
    th = tier != "quick"
    bud = 900 if th else 80
    o = [{"h": "box"}, {"h": "reject"}, {"h": "lit", "cfg": {"zeta": False}}, {"h": "lit", "cfg": {"zeta": True}}]

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "budget": bud, "weight": weight, "hash_consts": [F(0), F(1), F(1, 2)]})
    add("ep", weight=8)
    for e in (False, True):
        add("power", hps=[ESTAR, [None, 0, "1/2", 1, "-1/4", 0]], expand=e)
    for z in (False, True):
        add("lift", slopess=[[[-2, 0], [-6, 1]], [[-12, 2]]], zeta=z)
        add("lift", slopess=[], zeta=z)
    add("best", given=[[RHO]], zetas=[], power=None, zeta=False, dom=DOM)
    add("best", given=[[RHO], [ESTAR]], zetas=[], power=None, zeta=False, dom=DOM, weight=6)
    add("best", given=[[RHO, ["1", -2, 1, -1, 0, 0]]], zetas=[], power=None, zeta=False, dom=DOM, weight=6)
    add("best", given=[[RHO]], zetas=[], power=2, zeta=False, dom=DOM, weight=6)
    add("best", given=[[RHO]], zetas=[[ESTAR]], power=None, zeta=True, dom=DOM, weight=6)
    add("best", given=[[RHO]], zetas=[[ESTAR]], power=None, zeta=False, dom=DOM, weight=6)
    add("best", given=[], zetas=[[ESTAR]], power=2, zeta=True, dom=DOM, weight=6)
    add("best", given=[[["1", -2, 0, -1, 0, 0]]], zetas=[], power=None, zeta=False, dom=[[None, "1"], ["1", None]], weight=6)
    add("best", given=[[RHO]], zetas=[[["0", 0, 0, 1, -1, 0]]], power=2, zeta=True, dom=DOM, weight=6)
    T = [["?", -2, 1, -1, 0, 0]]        # its square says more than itself
    for z in (False, True):
        add("best", given=[T], zetas=[], power=2, zeta=z, dom=DOM, weight=6)
    add("best", given=[T], zetas=[[["0", 0, 0, 1, -1, 0]]], power=2, zeta=True, dom=DOM, weight=6)
    add("best", given=[T], zetas=[], power=2, zeta=True, dom=DOM, fn="star", weight=6)
    add("best", given=[[RHOQ], [["0", 0, 0, 3, -1, 0]]], zetas=[], power=None, zeta=False, dom=DOM, fn="star", weight=6)
    add("best", given=[[RHOQ]], zetas=[[["0", 0, 0, 3, -1, 0]]], power=2, zeta=True, dom=DOM, fn="star", weight=6)
    for what in PROJ:
        for z in (False, True):
            add("proj", polys=[[RHOQ, ESTARQ]], what=what, zeta=z, kind="P")
        add("proj", polys=[[ESTARQ], [["1", 0, 1, -1, 0, -1]]], what=what, zeta=False, kind="D", weight=5)
        add("proj", polys=[[["1", -1, 0, -1, 0, 0], ["0", 0, 0, 2, -1, -1]], [["?", 0, 0, 0, -1, 0]]], what=what, zeta=True, kind="I", weight=5)
        add("proj", polys=[[["1", -1, 0, -1, 0, 0], ["?", 0, 0, 2, -1, 0]], [["2", 0, 0, -1, -1, -1]]], what=what, zeta=False, kind="D", weight=5)
    return o
