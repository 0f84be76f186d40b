"""Large value estimates recorded from the literature against the theorems of the blueprint."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import reg, lit
from constants import Constants
from literature import literature
import large_values as LV

T, L = Constants.TAU_UPPER_LIMIT, Constants.LV_DEFAULT_UPPER_BOUND
BOUNDS = "every point (sigma, tau, rho); every large value estimate of the literature list, with every k of Jutila's family that is recorded"
ASSUMPTIONS = ["the zeta estimate is judged for tau >= 2 only, where zeta large values are considered", "Bourgain's table says nothing for tau <= 1 and is not judged on the borders between its rows nor for sigma < 1/2",
               "the theorems are those of the blueprint text; they are not themselves proved here"]

# bounds rho <= max of c0 + c1 sigma + c2 tau
MAXES = {
    "Huxley": ("Huxley large value estimate", [(2, -2, 0), (4, -6, 1)], 1972),
    "Heath-Brown": ("Heath-Brown large value estimate", [(2, -2, 0), (10, -13, 1)], 1979),
    "Guth-Maynard": ("Guth--Maynard large value estimate", [(2, -2, 0), (F(18, 5), -4, 0), (F(12, 5), -4, 1)], 2024),
}
# Table "optimised_bourgain_lve": bound and set of (sigma, tau), rows c0 + c1 sigma + c2 tau (>= 0)
TABLE = [
    ((F(16, 3), F(-20, 3), F(1, 3)), [(-1, 0, 1), (10, -14, 1), (4, 4, -5), (-11, 16, -1)]),
    ((5, -7, F(3, 4)), [(8, -8, -1), (-16, 20, F(1, 3)), (-6, 10, F(-7, 6)), (-4, -4, 5)]),
    ((3, -5, 1), [(-8, 8, 1), (2, -6, 2), (-10, 14, F(-2, 3)), (6, -2, -2)]),
    ((0, -4, 2), [(-6, 2, 2), (-12, 12, 1), (1, -1, 0)]),
    ((8, -12, F(4, 3)), [(15, -21, 1), (12, -12, -1), (F(-3, 2), 0, 1), (6, -10, F(7, 6))]),
    ((2, -2, 0), [(1, -1, 0), (-10, 14, -1), (-1, 0, 1), (-2, 6, -2)]),
    ((9, -12, F(2, 3)), [(F(3, 2), 0, -1), (F(-1, 2), 1, 0), (-1, 0, 1), (11, -16, 1), (16, -20, F(-1, 3))]),
]


def at(row, x):
    return row[0] + sum(F(a) * v for a, v in zip(row[1:], x))


def box(x):
    s, t, r = x
    return And(s >= F(1, 2), s <= 1, t >= 0, t <= T, r >= 0, r <= L)


def point(S):
    return S.real("s", lo=0, hi=2), S.real("t", lo=-1, hi=T + 1), S.real("r", lo=-1, hi=L + 1)


def judge(S, name, kind, x, want, year):
    h = lit.one(S, name, kind)
    S.check(isinstance(h.data, LV.Large_Value_Estimate), f"{name}: a large value estimate")
    if year is not None:
        S.check(h.reference.year() == year, f"{name}: its year")
    S.check(len(h.dependencies) == 0, f"{name}: drawn from the literature, rests on nothing else")
    m = reg.mem(h.data.region, x)
    S.check(Implies(want, m), f"{name}: excludes nothing the theorem allows")
    S.check(Implies(m, want), f"{name}: excludes everything the theorem excludes")


def h_max(S, which):
    x = point(S)
    name, rows, year = MAXES[which]
    judge(S, name, "Large value estimate", x, And(box(x), Or([x[2] <= at(r, x) for r in rows])), year)


def h_jutila(S, k):
    x = point(S)
    rows = [(2, -2, 0), (4 - F(2, k), F(2, k) - 6, 1), (6 * k, -8 * k, 1)]
    judge(S, f"Jutila large value estimate with k = {k}", "Large value estimate", x, And(box(x), Or([x[2] <= at(r, x) for r in rows])), 1977)


def h_zeta(S):
    x = point(S)
    S.assume(x[1] >= 2)
    judge(S, "Heath-Brown (1978) zeta large value estimate", "Zeta large value estimate", x, And(box(x), x[2] <= at((6, -12, 2), x)), 1978)


def h_bourgain(S, row):
    s, t, r = x = point(S)
    h = lit.one(S, "Bourgain optimized large value estimate", "Large value estimate")
    m = reg.mem(h.data.region, x)
    S.check(h.reference.year() == 2000, "its year")
    if row is None:     # below tau = 1 nothing is claimed
        S.check(Implies(And(s >= F(1, 2), s <= 1, t >= 0, t < 1, r >= 0, r <= L), m), "nothing is excluded below tau = 1")
        S.check(Implies(And(m, s >= F(1, 2)), And(s <= 1, t >= 0, t <= T, r >= 0)), "nothing outside the domain")
        S.check(Implies(And(s >= F(1, 2), s <= 1, t >= 1, t <= T), Or([And([at(c, x) >= 0 for c in cs]) for _, cs in TABLE])), "the rows of the table cover the domain")
        S.check(Implies(And(m, t > 1, s > F(1, 2)), Or([And([r <= at(b, x)] + [at(c, x) >= 0 for c in cs]) for b, cs in TABLE])), "everything the table excludes is excluded")
        return
    b, cs = TABLE[row]
    S.assume(And([at(c, x) > 0 for c in cs]))
    S.assume(And(s > F(1, 2), s < 1, t > 1, t < T))
    S.check(Iff(m, And(r >= 0, r <= at(b, x))), "the bound of the row")


# the six terms of the maximum in Bourgain's theorem: [const, sigma, tau, alpha1, alpha2]
TERMS = [(2, -2, 0, 0, 1), (2, -2, 0, 1, F(1, 2)), (4, -8, 2, 0, -1), (12, -16, 1, -2, 0), (3, -4, 0, 4, 0), (0, -4, 2, 4, 0)]


def optimum(x):
    """Some alpha1, alpha2 >= 0 make the maximum smaller than rho (both eliminated by Fourier-Motzkin)."""
    rows = [[-F(v) for v in t[:3]] + [F(1)] + [-F(v) for v in t[3:]] for t in TERMS]     # rho - term > 0
    rows = [(r, True) for r in rows] + [([F(0)] * 4 + [F(1), F(0)], False), ([F(0)] * 5 + [F(1)], False)]
    for j in (5, 4):
        z = [(r[:j], st) for r, st in rows if r[j] == 0]
        pos, neg = [q for q in rows if q[0][j] > 0], [q for q in rows if q[0][j] < 0]
        z += [([a / p[j] - b / n[j] for a, b in zip(p[:j], n[:j])], s1 or s2) for p, s1 in pos for n, s2 in neg]
        rows = z
    return And([at(r, x) > 0 if st else at(r, x) >= 0 for r, st in rows])


def h_optimal(S, tau):
    """The recorded table is the best choice of alpha1 and alpha2 in Bourgain's theorem."""
    s, t, r = x = point(S)
    S.assume(And(s > F(1, 2), s < 1, t > F(tau[0]), t < F(tau[1]), r >= 0, r <= L))
    S.assume(And([at(c, x) != 0 for _, cs in TABLE for c in cs]))
    m = reg.mem(lit.one(S, "Bourgain optimized large value estimate", "Large value estimate").data.region, x)
    S.check(Implies(Not(m), optimum(x)), "excludes only what the theorem excludes for some alpha1, alpha2 >= 0")
    S.check(Implies(And(m, r > 0), Not(optimum(x))), "no choice of alpha1, alpha2 excludes more")


def h_all(S):
    """Every recorded estimate is one of the theorems above."""
    known = {v[0] for v in MAXES.values()} | {"Bourgain optimized large value estimate"}
    x = S.real("x")
    ks = []
    for h in lit.of(literature, "Large value estimate"):
        if h.name.startswith("Jutila large value estimate with k = "):
            ks.append(int(h.name.rsplit("=", 1)[1]))
    S.check(sorted(ks) == list(range(1, len(ks) + 1)) and len(ks) >= 1, "Jutila's family is recorded for k = 1, 2, ... without gaps")
    S.check(Or(x >= 0, x < 0), "reached")


HARNESSES = {"max": h_max, "jutila": h_jutila, "zeta": h_zeta, "bourgain": h_bourgain, "optimal": h_optimal, "all": h_all}


def tasks(tier):
    t = [{"h": "max", "cfg": {"which": w}} for w in MAXES]
    t += [{"h": "jutila", "cfg": {"k": k}} for k in range(1, Constants.LARGE_VALUES_TRUNCATION)]
    t += [{"h": "zeta", "cfg": {}}, {"h": "all", "cfg": {}}]
    t += [{"h": "bourgain", "cfg": {"row": i}} for i in [None] + list(range(len(TABLE)))]
    t += [{"h": "optimal", "cfg": {"tau": ["1", str(T)]}}]
    for i in t:
        i.setdefault("budget", 60 if tier == "quick" else 240)
    return t
