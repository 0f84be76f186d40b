"""From large value (energy) regions to zero density (energy) estimates."""
import itertools

from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo, hyp, reg
from checks.common import value, horner
from checks.P21 import box, below
from constants import Constants
from functions import Affine, Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region
import additive_energy as AE
import large_values as LV
import zero_density_energy_estimate as ZE
import zero_density_estimate as ZD
import zeta_large_values as ZL

T, L = Constants.TAU_UPPER_LIMIT, Constants.LV_DEFAULT_UPPER_BOUND
BOUNDS = ("suprema over 1-2 polytopes with fixed normals and up to 1 arbitrary constant; regions from 1-3 large value estimates with up to 2 arbitrary constants; zero density estimates from 1-3 estimates with "
          "constants from a list, for every sigma")
ASSUMPTIONS = ["tau is positive on every polytope (it is at least tau_0 or 2)", "points on the boundary of a piece may go either way", "end points of the pieces in sigma are not judged (the pieces are half-open)"]
NONE = -1000000


def solv1(rows):
    """The one-variable system a t + b >= 0 for (b, a, strict) has a solution; a may have any sign."""
    out = []
    for b, a, st in rows:
        out.append(Implies(a == 0, b > 0 if st else b >= 0))
    for (b, a, s1), (d, c, s2) in itertools.permutations(rows, 2):
        # a > 0: t >= -b/a ; c < 0: t <= -d/c
        u, v = b * c, d * a
        out.append(Implies(And(a > 0, c < 0), u < v if s1 or s2 else u <= v))
    return And(out)


def sup_is(S, f, s, cells, what, strict_only=True):
    """f = sup of rho / tau over the union of the cells (rows [c, sigma, tau, rho] >= 0) at sigma = s; None if empty there.

    cells: lists of rows. All cells have tau > 0."""
    t, r = S.real("t"), S.real("r")
    x = (s, t, r)
    # no point of the interior lies above
    S.check(And([Implies(And([geo.row_at(w, x) > 0 for w in c]), r <= f * t) for c in cells]), f"{what}: no smaller than rho / tau at any point of the region")
    att = []
    for c in cells:
        att.append(solv1([(w[0] + w[1] * s, w[2] + w[3] * f, False) for w in c] + [(F(0), F(1), True)]))
    S.check(Or(att), f"{what}: attained in the region")


def some(S, s, cells):
    """The slice of the union at sigma = s has an interior point / a point."""
    def sol(st):
        fn = geo.nonempty_strict if st else geo.nonempty
        return Or([fn([[w[0] + w[1] * s, w[2], w[3]] for w in c], [], 2) for c in cells])
    return sol(True), sol(False)


def sigma(S, interval):
    s = S.real("x")
    S.assume(And(s > F(interval[0]), s < F(interval[1])))
    return s


def judge(S, s, res, cells, what, divide=False, get=lambda r: (r[0], r[1])):
    ends = Or([Or(s == get(r)[1].x0, s == get(r)[1].x1) for r in res])
    ins = []
    inner, any_ = some(S, s, cells)
    for r in res:
        g, I = get(r)
        c = And(s > I.x0, s < I.x1)
        ins.append(c)
        if not bool(c):
            continue
        v = value(g.at(s))
        if divide:
            v = v * (1 - s)
        if bool(inner):
            sup_is(S, v, s, cells, what)
        elif not bool(any_):
            S.check(v == NONE, "nothing is claimed only where the region is empty")
        S.observe("v", v)
    S.check(Or(ins + [ends]), "every sigma of the interval is covered")
    S.check(And([Not(And(a, b)) for i, a in enumerate(ins) for b in ins[:i]]), "pieces do not overlap")


VALUES = [F(-1, 2), F(1, 2), F(1), F(3, 2), F(2), F(3)]


def const(S, name, v):
    return S.real(name) if v is None else S.choice(name, VALUES) if v == "?" else F(v)


BASE = [["-1/2", 1, 0, 0], ["1", -1, 0, 0], ["-1", 0, 1, 0], ["3", 0, -1, 0], ["0", 0, 0, 1]]


def h_sup(S, polys, energy, interval, base=None):
    x = sigma(S, interval)
    cells = []
    for i, extra in enumerate(polys):
        rows = [[const(S, f"c{i}_{j}", w[0])] + [F(a) for a in w[1:]] for j, w in enumerate((BASE if base is None else base) + extra)]
        cells.append(rows)
    ps = [Polytope([list(r) for r in rows]) for rows in cells]
    for c, p in zip(cells, ps):
        S.assume(geo.nonempty_strict(c, [], 3))
    I = Interval(F(interval[0]), F(interval[1]))
    if energy:
        R = Region.union([Region.from_polytope(p) for p in ps])
        res = ZE.compute_sup_LV_on_tau(R, I)
    else:
        res = ZD.compute_sup_rho_on_tau(ps, I)
    judge(S, x, res, cells, "supremum")


def estimates(S, spec, ty="Large value estimate", tag="c", y0=1990):
    out = []
    for i, bs in enumerate(spec):
        b = [[const(S, f"{tag}{i}_{j}", v[0])] + [F(a) for a in v[1:]] for j, v in enumerate(bs)]
        out.append((b, Hypothesis(f"{ty} {i}", ty, LV.convert_bounds([list(r) for r in b]), "", Reference.make("X", y0 + i))))
    return out


def lv_rows(b):
    """Cells of one estimate: rows [c, sigma, tau, rho]."""
    base = [[F(-1, 2), F(1), F(0), F(0)], [F(1), F(-1), F(0), F(0)], [F(0), F(0), F(1), F(0)], [F(T), F(0), F(-1), F(0)], [F(0), F(0), F(0), F(1)], [F(L), F(0), F(0), F(-1)]]
    return [base + [[r[0], r[1], r[2], F(-1)]] for r in b]


def power_rows(cells, k):
    return [[[w[0], w[1], w[2] / k, w[3] / k] for w in c] for c in cells]


def cross(dom, groups):
    return [dom + sum(pick, []) for pick in itertools.product(*groups)]


def rect(s0, s1, t0, t1):
    return [[-s0, F(1), F(0), F(0)], [s1, F(-1), F(0), F(0)], [-t0, F(0), F(1), F(0)], [t1, F(0), F(-1), F(0)], [F(0), F(0), F(0), F(1)], [F(L), F(0), F(0), F(-1)]]


def h_region(S, lvs, zetas, power, zeta, dom):
    hyp.begin_any(S)
    A = estimates(S, lvs)
    B = estimates(S, zetas, "Zeta large value estimate", "z", 2000)
    H = Hypothesis_Set([h for _, h in A + B] + ([LV.raise_to_power_hypothesis(F(power))] if power else []))
    n0 = len(H)
    s0, s1, t0, t1 = [F(v) for v in dom]
    D = Region.from_polytope(Polytope.rect((s0, s1), (t0, t1), (F(0), F(L))))
    g = ZD.compute_large_value_region(H, D, zeta=zeta)
    groups = [(h, lv_rows(b)) for b, h in A] + ([(h, power_rows(lv_rows(b), F(power))) for b, h in A] if power else []) + ([(h, lv_rows(b)) for b, h in B] if zeta else [])
    x = S.reals("s t r")

    def inside(gs, strict):
        def row(w):
            v = geo.row_at(w, x)
            return v > 0 if strict else v >= 0
        return And([And([row(w) for w in rect(s0, s1, t0, t1)])] + [Or([And([row(w) for w in c]) for c in cells]) for cells in gs])
    m = reg.mem(g.data.region, x)
    allc = [c for _, c in groups]
    S.check(Implies(m, inside(allc, False)), "only points every estimate allows")
    S.check(Implies(inside(allc, True), m), "all points every estimate allows")
    S.check(g.hypothesis_type == ("Zeta large value estimate" if zeta else "Large value estimate"), "type")
    S.check(len(H) == n0, "the set is unchanged")
    used = []
    prim = [h for _, h in A] + ([h for _, h in B] if zeta else [])
    for d in g.dependencies:
        if any(d is h for h in prim):
            used.append(lv_rows([b for b, h in A + B if h is d][0]))
        else:
            src = list(d.dependencies)
            S.check(power and len(src) == 1 and any(src[0] is h for _, h in A), "rests on the estimates of the set")
            used.append(power_rows(lv_rows([b for b, h in A if h is src[0]][0]), F(power)))
    if len(g.data.region.child) > 0:
        # known: the second estimate only removes a whole polytope of the first, and is not named
        kf = [("KF-lv-region-deps", lvs == KF_LVS and A[1][0][0][0] == 2 and not zetas and not power)]
        S.check(Implies(inside(used, True), m), "the named estimates alone imply the region", known=kf)
        S.check(And([g.reference.year() >= d.reference.year() for d in g.dependencies]), "dated no earlier than its sources")


def h_zd(S, lvs, zetas, powers, interval, tau0, method):
    """Zero density estimates from large value and zeta large value estimates."""
    x = sigma(S, interval)
    hyp.begin_any(S)
    A = estimates(S, lvs)
    B = estimates(S, zetas, "Zeta large value estimate", "z", 2000)
    s0, s1 = F(interval[0]), F(interval[1])
    I = Interval(s0, s1)
    H = Hypothesis_Set([h for _, h in A + B] + [LV.raise_to_power_hypothesis(F(k)) for k in powers])
    lvc = [lv_rows(b) for b, _ in A] + [power_rows(lv_rows(b), F(k)) for k in powers for b, _ in A]
    tz = [F(-2), F(0), F(1), F(0)]
    sr = [[-s0, F(1), F(0), F(0)], [s1, F(-1), F(0), F(0)], [F(0), F(0), F(0), F(1)]]
    if method == 1:
        t0 = F(tau0)
        res = ZD.lv_zlv_to_zd(H, I, t0)
        dom1, dom2 = rect(s0, s1, t0, 2 * t0), rect(s0, s1, F(2), t0)
    else:
        m, c = F(tau0[0]), F(tau0[1])
        res = ZD.lv_zlv_to_zd2(H, I, Affine(m, c, I))
        dom1 = sr + [[-c * F(2, 3), -m * F(2, 3), F(1), F(0)], [c, m, F(-1), F(0)]]
        dom2 = sr + [tz, [c * F(4, 3), m * F(4, 3), F(-1), F(0)]]
    cells = cross(dom1, lvc) + cross(dom2, lvc + [lv_rows(b) for b, _ in B])
    cells = [c for c in cells if bool(geo.nonempty(c, [], 3))]
    S.check(all(h.hypothesis_type == "Zero density estimate" for h in res), "type")
    judge(S, x, res, cells, "A(sigma)(1 - sigma)", divide=True, get=lambda h: (h.data.bound, h.data.interval))
    for h in res:
        tree = set()
        todo = list(h.dependencies)
        while todo:
            d = todo.pop()
            if d not in tree:
                tree.add(d)
                todo.extend(d.dependencies)
        S.check(any(d is g for d in tree for _, g in A), "rests on given estimates")
        S.check(all(d.dependencies or any(d is g for _, g in A + B) or d.data.region.child == [] for d in tree), "rests on nothing else")


E5 = [["-1/2", 1, 0, 0, 0, 0], ["1", -1, 0, 0, 0, 0], ["0", 0, 0, 1, 0, 0], ["9", 0, 0, -1, 0, 0], ["0", 0, 0, 0, 1, 0], ["9", 0, 0, 0, -1, 0], ["0", 0, 0, 0, 0, 1], ["9", 0, 0, 0, 0, -1]]


def h_lver(S, lver, zver, interval):
    """lver_to_zd: from (zeta) large value energy regions given as lists of polytopes."""
    x = sigma(S, interval)
    hyp.begin_any(S)
    s0, s1 = F(interval[0]), F(interval[1])
    hs, cells = [], []
    src = [Hypothesis(f"src{i}", "x", None, "", Reference.make("X", 1980 + i)) for i in range(2)]
    for i, spec in enumerate((lver, zver)):
        if spec is None:
            hs.append(None)
            continue
        ps = []
        for j, extra in enumerate(spec):
            rows = [[const(S, f"c{i}{j}{k}", w[0])] + [F(a) for a in w[1:]] for k, w in enumerate(E5 + extra)]
            if not bool(geo.nonempty_strict(rows, [], 5)):
                continue
            ps.append(Region.from_polytope(Polytope([list(r) for r in rows])))
            cells.append(rows)
        mk = AE.derived_zeta_large_value_energy_region if i else AE.derived_large_value_energy_region
        hs.append(mk(AE.Large_Value_Energy_Region(Region.disjoint_union(ps)), "", {src[i]}))
    res = ZD.lver_to_zd(hs[0], hs[1], Interval(s0, s1))
    flat = []
    for c in cells:         # project out rho* and s (oracle: Fourier-Motzkin on rows with symbolic offsets is done at sigma, below)
        flat.append(project(c))
    judge(S, x, res, flat, "A(sigma)(1 - sigma)", divide=True, get=lambda h: (h.data.bound, h.data.interval))
    for h in res:
        S.check(h.hypothesis_type == "Zero density estimate" and set(h.dependencies) == {s for s, g in zip(src, hs) if g is not None}, "type and sources")
        n = [0 if g is None else 1 for g in hs]
        S.check(h.proof == f"Follows from combining {n[0]} large value energy regions and {n[1]} zeta large value energy regions", "the proof counts its sources")


def project(rows, keep=(0, 1, 2)):
    """Fourier-Motzkin on concrete rows (5 variables), keeping three of them in order."""
    rows = [list(r) for r in rows]
    for j in sorted(set(range(5)) - set(keep), reverse=True):
        z = [r for r in rows if r[1 + j] == 0]
        pos = [r for r in rows if r[1 + j] > 0]
        neg = [r for r in rows if r[1 + j] < 0]
        for p in pos:
            for n in neg:
                z.append([a / p[1 + j] - b / n[1 + j] for a, b in zip(p, n)])
        rows = []
        for r in z:
            r = r[:1 + j] + r[2 + j:]
            if r not in rows:
                rows.append(r)
    return rows


def h_energy(S, lvers, zvers, tau0, interval):
    """lver_to_energy_bound: A*(sigma)(1 - sigma) <= sup rho* / tau."""
    x = sigma(S, interval)
    from checks import P23
    hyp.begin_any(S)
    s0, s1 = F(interval[0]), F(interval[1])
    m, c = F(tau0[0]), F(tau0[1])
    hs, groups = [], []
    for i, spec in enumerate((lvers, zvers)):
        gr = []
        for j, hps in enumerate(spec):
            rows = [[const(S, f"c{i}{j}{k}", w[0])] + [F(a) for a in w[1:]] for k, w in enumerate(hps)]
            hs.append(Hypothesis(f"r{i}{j}", P23.KINDS[bool(i)], AE.Large_Value_Energy_Region(Region.from_union_of_halfplanes([list(r) for r in rows], P23.BOX())), "", Reference.make("X", 1990 + 5 * i + j)))
            gr.append([[[F(v) for v in b] for b in P23.BOX()] + [r] for r in rows])
        groups.append(gr)
    H = Hypothesis_Set(hs)
    res = ZE.lver_to_energy_bound(H, Affine(m, c, Interval(s0, s1)))
    z = [F(0)] * 3
    d1 = [[-s0, F(1), F(0)] + z, [s1, F(-1), F(0)] + z, [-c, -m, F(1)] + z, [2 * c, 2 * m, F(-1)] + z]
    d2 = [[-s0, F(1), F(0)] + z, [s1, F(-1), F(0)] + z, [F(-2), F(0), F(1)] + z, [c, m, F(-1)] + z]
    cells = [q for q in cross(d1, groups[0]) + cross(d2, groups[0] + groups[1]) if bool(geo.nonempty_strict(q, [], 5))]
    flat = [project(q, (0, 1, 3)) for q in cells]
    judge(S, x, res, flat, "A*(sigma)(1 - sigma)", divide=True, get=lambda h: (h.data.bound, h.data.interval))
    for h in res:
        S.check(h.hypothesis_type == "Zero density energy estimate", "type")


HARNESSES = {"sup": h_sup, "region": h_region, "zd": h_zd, "lver": h_lver, "energy": h_energy}
H2, HUX, JUT, GM, HB = [["2", -2, 0], ["1", -2, 1]], [["2", -2, 0], ["4", -6, 1]], [["2", -2, 0], ["10/3", "-16/3", 1], ["18", -24, 1]], [["2", -2, 0], ["18/5", -4, 0], ["12/5", -4, 1]], [["6", -12, 2]]

KF_LVS = [[["2", -2, 0], ["1/2", 0, 0]], [["?", -2, 0]]]


def tasks(tier):
    th = tier != "quick"
    bud = 900 if th else 80
    o = []

    def add(h, weight=3, **cfg):
        o.append({"h": h, "cfg": cfg, "budget": bud, "weight": weight, "hash_consts": [F(0), F(1), F(1, 2)]})
    for e in (False, True):
        add("sup", polys=[[["?", -2, 0, -1]]], energy=e, interval=["1/2", "1"])
        add("sup", polys=[[["?", -2, "1/2", -1]], [["3", -3, 0, -1]]], energy=e, interval=["1/2", "1"])
        add("sup", polys=[[["?", -2, 1, -1], ["?", -1, 0, -1]]], energy=e, interval=["3/5", "9/10"], weight=5)
        add("sup", polys=[[["-3/4", 1, 0, 0], ["?", 1, 0, -1]], [["?", 1, -1, 0], ["1", 0, 0, -1]]], energy=e, interval=["1/2", "1"], weight=5)
        add("sup", polys=[[[None, -2, 0, -1]]], energy=e, interval=["1/2", "1"], weight=6)
        add("sup", polys=[[["0", 2, 1, -1], [None, 0, 0, -1]]], energy=e, interval=["1/2", "1"], weight=6)
    D = ["1/2", "1", "1", "2"]
    C = [[None, -2, 0]]
    add("region", lvs=[C], zetas=[], power=None, zeta=False, dom=D)
    add("region", lvs=[H2], zetas=[C], power=None, zeta=True, dom=D)
    add("region", lvs=[H2], zetas=[C], power=None, zeta=False, dom=D)
    add("region", lvs=[C, [["1", -2, 1]]], zetas=[], power=None, zeta=False, dom=D)
    add("region", lvs=[[[None, -2, 1], ["2", -2, 0]], [["3", -3, 0]]], zetas=[], power=None, zeta=False, dom=D, weight=5)
    add("region", lvs=[C], zetas=[], power=2, zeta=False, dom=D)
    for z in (False, True):     # squares that say more than the estimate itself
        add("region", lvs=[[["?", -2, 1]]], zetas=[], power=2, zeta=z, dom=D)
    add("region", lvs=[[["1", -2, 1]]], zetas=[[["?", -3, "1/3"]]], power=2, zeta=True, dom=D)
    add("region", lvs=[[["?", -2, 0], ["?", -6, 1]], H2], zetas=[], power=2, zeta=False, dom=["3/4", "1", "1", "3"], weight=6)
    add("region", lvs=[[["?", -2, 0], ["1/2", 0, 0]], [["?", -3, 1]]], zetas=[[["3", -3, "1/3"]]], power=None, zeta=True, dom=D, weight=6)
    add("region", lvs=KF_LVS, zetas=[], power=None, zeta=False, dom=D, weight=6)
    add("zd", lvs=[H2], zetas=[], powers=[2], interval=["1/2", "3/4"], tau0="3/2", method=1)
    add("zd", lvs=[H2], zetas=[HB], powers=[2], interval=["3/4", "1"], tau0="2", method=1, weight=9)
    if th:
        add("zd", lvs=[H2, HUX], zetas=[HB], powers=[2, 3], interval=["3/4", "1"], tau0="2", method=1, weight=9)
    add("zd", lvs=[[["2", -2, 0], ["?", -2, 1]]], zetas=[], powers=[], interval=["1/2", "3/4"], tau0=["-1", "2"], method=2, weight=6)
    add("zd", lvs=[H2, HUX], zetas=[], powers=[], interval=["3/4", "1"], tau0=["3", "-1"], method=2, weight=6)
    add("zd", lvs=[H2], zetas=[[["?", -6, 1]]], powers=[], interval=["11/14", "1"], tau0=["0", "5/2"], method=2, weight=6)
    add("zd", lvs=[H2, GM], zetas=[], powers=[], interval=["7/10", "9/10"], tau0=["1", "3/5"], method=2, weight=6)
    P1 = [["-1", 0, 1, 0, 0, 0], ["3", 0, -1, 0, 0, 0], ["?", -2, 0, -1, 0, 0], ["0", 0, 0, 3, -1, 0]]
    P2 = [["-2", 0, 1, 0, 0, 0], ["4", 0, -1, 0, 0, 0], ["4", -6, 1, -1, 0, 0]]
    P3 = [["-1", 0, 1, 0, 0, 0], ["2", 0, -1, 0, 0, 0], ["1", -1, 0, -1, "1/8", 0]]
    add("lver", lver=[P1], zver=None, interval=["1/2", "1"])
    add("lver", lver=None, zver=[P2, P3], interval=["1/2", "1"])
    add("lver", lver=[P1, P3], zver=[P2], interval=["3/5", "9/10"], weight=6)
    EE = [["?", -2, 0, 1, -1, 0], ["1", -4, 0, 4, -1, 0]]
    RR = [["2", -2, 0, -1, 0, 0]]
    add("energy", lvers=[RR, EE], zvers=[], tau0=["0", "2"], interval=["3/4", "1"], weight=6)
    add("energy", lvers=[RR, [["?", -2, 0, 1, -1, 0]]], zvers=[[["2", -3, 0, 0, -1, 0]]], tau0=["1", "2"], interval=["3/4", "1"], weight=6)
    add("energy", lvers=[RR], zvers=[[["?", -2, 0, 1, -1, 0]]], tau0=["0", "1"], interval=["1/2", "1"], weight=6)
    return o
