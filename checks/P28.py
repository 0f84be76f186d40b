"""Large value energy relations recorded from the literature against the theorems of the blueprint."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import reg, lit
from constants import Constants
import additive_energy as AE

T, L = Constants.TAU_UPPER_LIMIT, Constants.LV_DEFAULT_UPPER_BOUND
BOUNDS = "every point (sigma, tau, rho, rho*, s); every large value energy region of the literature list, with every k of its families that is recorded"
ASSUMPTIONS = ["the theorems are those of the blueprint text; they are not themselves proved here",
               "where a theorem is restricted to a range of tau, the closed complement of the range may be left unrestricted, its end points included"]
KIND = "Large value energy region"


def box(x):
    s, t, r, e, d = x
    return And([s >= F(1, 2), s <= 1, t >= 0, t <= T] + [v >= 0 for v in (r, e, d)] + [v <= L for v in (r, e, d)])


def le(a, *bs):
    """a <= max(bs)"""
    return Or([a <= b for b in bs])


def lemax(a, *groups):
    """a <= sum of the maxima of the groups, each (weight, [terms])"""
    combos = [0]
    for w, terms in groups:
        combos = [c + w * t for c in combos for t in terms]
    return Or([a <= c for c in combos])


def hb1(x, k):
    s, t, r, e, d = x
    return le(d, r + 2, 2 * r + 1, F(5, 4) * r + t / 2 + 1), True, True


def ivic(x, k):
    s, t, r, e, d = x
    return le(d, r + 2, 2 * r + 1), t < 1, t <= 1


def hb2a(x, k):
    s, t, r, e, d = x
    return lemax(e, (1, [1 - 2 * s]), (F(1, 2), [r + 1, 2 * r, F(5, 4) * r + t / 2]), (F(1, 2), [e + 1, 4 * r, F(3, 4) * e + r + t / 2])), True, True


def hb2b(x, k):
    s, t, r, e, d = x
    return le(e, 3 * r + 1 - 2 * s, r + 4 - 4 * s, F(5, 2) * r + (3 - 4 * s) / 2), t < F(3, 2), t <= F(3, 2)


def hb3(x, k):
    s, t, r, e, d = x
    return le(r, 2 - 2 * s, e / 4 + t / 4 + k * (3 - 4 * s) / 4, e / 4 + k * t / 4 + k * (1 - 2 * s) / 2), True, True


def gm1(x, k):
    s, t, r, e, d = x
    common = [r <= 2 - 2 * s, r <= 1 - 2 * s - F(10, 3)]
    common += [r <= 1 - 2 * s + m / 3 for m in (2 + 2 * r, t + 1 + (2 - F(1, k)) * r, 2 + 2 * r + (t / 2 - F(3, 4) * r) / k)]
    s3a = r <= 1 - 2 * s + (2 * t + r / 2 + e / 2) / 3
    s3b = Or([r <= 1 - 2 * s + m / 3 for m in (2 * t + F(3, 2) * r, t + 1 + r / 2 + e / 2)])
    return Or(Or(common), And(s3a, s3b)), True, True


def gm2(x, k):
    s, t, r, e, d = x
    return le(e, 3 * r + 1 - 2 * s, 2 * r + 2 - 2 * s), t < F(3, 2), t <= F(3, 2)


def gm3(x, k):
    s, t, r, e, d = x
    return le(e, r + 4 - 4 * s, F(21, 8) * r + t / 4 + 1 - 2 * s, 3 * r + 1 - 2 * s), And(t > 1, t < F(4, 3)), And(t >= 1, t <= F(4, 3))


HB, GM = "Heath-Brown large value energy region", "Guth--Maynard large value energy region"
# relation, name, families' values of k, year of the reference
THEOREMS = {
    "HB1": (hb1, f"{HB} 1", [None], 1979), "Ivic": (ivic, r"Ivi\'{c} large value energy region", [None], None),
    "HB2a": (hb2a, f"{HB} 2a", [None], 1979), "HB2b": (hb2b, f"{HB} 2b", [None], 1979),
    "HB3": (hb3, f"{HB} 3", [1, 2, 3, 4], 1979), "GM1": (gm1, f"{GM} 1", [1, 2, 3], 2024),
    "GM2": (gm2, f"{GM} 2", [None], 2024), "GM3": (gm3, f"{GM} 3", [None], 2024),
}


def h_theorem(S, which, k):
    x = (S.real("s", lo=0, hi=2), S.real("t", lo=-1, hi=T + 1), S.real("r", lo=-1, hi=L + 1), S.real("e", lo=-1, hi=L + 1), S.real("d", lo=-1, hi=L + 1))
    rel, name, _, year = THEOREMS[which]
    if k is not None:
        name = f"{name} with k = {k}"
    h = lit.one(S, name, KIND)
    S.check(isinstance(h.data, AE.Large_Value_Energy_Region), f"{name}: an energy region")
    S.check(len(h.dependencies) == 0, f"{name}: drawn from the literature, rests on nothing else")
    if year is not None:
        S.check(h.reference.year() == year, f"{name}: its year")
    ok, inside, closed = rel(x, k)
    m = reg.mem(h.data.region, x)
    S.check(Implies(m, box(x)), f"{name}: nothing outside the domain")
    S.check(Implies(And(box(x), Or(Not(closed), ok)), m), f"{name}: excludes nothing the theorem allows")
    S.check(Implies(And(m, inside), ok), f"{name}: excludes everything the theorem excludes")


HARNESSES = {"theorem": h_theorem}


def tasks(tier):
    return [{"h": "theorem", "cfg": {"which": w, "k": k}, "budget": 60 if tier == "quick" else 240} for w, v in THEOREMS.items() for k in v[2]]
