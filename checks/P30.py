"""Recorded zero density (energy) estimates against the theorems of the blueprint."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import lit
from checks.common import value
from constants import Constants
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE

BOUNDS = "every sigma in [1/2, 1) for every recorded zero density (energy) estimate given by a rational function; Ivic's and Pintz's families as far as they are recorded (Ivic's with k < 100)"
ASSUMPTIONS = ["the theorems are those of the blueprint text; they are not themselves proved here",
               "estimates with square roots (Montgomery 1971, Ford 2002, Heath-Brown 2017) are not judged",
               "a theorem is only required strictly inside its range; Huxley's 1973 table row with the garbled range and Jutila's estimate near the critical line are only required on the range the code has"]
LIMIT = Constants.ZERO_DENSITY_SIGMA_LIMIT


def frac(num, den, lo="1/2", hi="1"):
    """A(x) <= num(x)/den(x) on [lo, hi]; num, den lowest degree first; den > 0 there."""
    return [F(c) for c in num], [F(c) for c in den], F(lo), F(hi)


def ivic_k(k):
    lo = F(41, 53) if k == 3 else F(6 * k * k - 5 * k + 2, 8 * k * k - 7 * k + 2)
    return frac([3 * k], [2 - k, 3 * k - 2], lo)


def pintz():
    out = [frac([3], [-20, 24], "23/24", "39/40"), frac([2], [-12, 15], "39/40", "41/42"), frac([3], [-35, 40], "41/42", "59/60")]
    for n in range(6, 100):
        lo = 1 - F(1, 2 * n * (n - 1))
        if lo > LIMIT:
            break
        out.append(frac([3], [n - 2 * n * (n - 1), 2 * n * (n - 1)], lo, 1 - F(1, 2 * n * (n + 1))))
    return out


# (author, year) -> theorems
ZERO = {
    ("carlson", 1921): [frac([0, 4], [1])], ("ingham", 1940): [frac([3], [2, -1])], ("huxley", 1972): [frac([3], [-1, 3])],
    ("huxley", 1973): [frac([39], [-75, 115], "55/67", "189/230"), frac([2], [1], "189/230", "75/89"), frac([48], [-37, 74], "61/74", "75/89")],
    ("huxley", 1975): [frac([3], [0, 2], "37/42"), frac([48], [-37, 74], "61/74", "37/42"), frac([2], [1], "80119/100000"), frac([2], [1], "4/5")],
    ("heathbrown", 1979): [frac([4], [-1, 4], "25/28"), frac([3], [-7, 10], "3/4", "25/28"), frac([9], [-1, 7], "11/14")],
    ("ivi", 1979): [frac([6], [-1, 5], "67/87"), frac([3], [-25, 34], "28/37", "74/95"), frac([9], [-1, 7], "74/95"), frac([3], [0, 2], "4/5"), frac([68], [-47, 98], "115/166")],
    ("ivic", 1980): [frac([3], [0, 2], "3831/4791"), frac([2], [1], "11/14"), frac([9], [-1, 7], "41/53"), frac([6], [-1, 5], "13/17"), frac([4], [1, 2], "17/18"),
                     frac([24], [-11, 30], "155/174", "17/18")],
    ("jutila", 1983): [frac(["3/2", -1], [1, -1], "155/174")],
    ("ivic", 1984): [frac([3], [-4, 7], "3/4", "10/13"), frac([9], [-2, 8], "10/13"), frac([15], [-10, 22], "10/13", "5/6")],
    ("ivic", 2003): [ivic_k(k) for k in range(3, 100)],
    ("conrey", 1989): [frac(["11/7", "-8/7"], [1, -1])],
    ("bourgain", 1995): [frac([4], [-25, 30], "15/16"), frac([2], [-5, 7], "17/19", "15/16")],
    ("bourgain", 2000): [frac([2], [1], "25/32")], ("bourgain", 2002): [frac([3], [0, 2], "3734/4694")],
    ("pintz", 2023): pintz(),
    ("chendebruynevindas", 2024): [frac([24], [-11, 30], "279/314", "17/18")],
    ("guthmaynard", 2024): [frac([15], [3, 5])],
}
GROUPS = sorted(ZERO)
ENERGY = [frac([10, -11], [2, -3, 1], "1/2", "2/3"), frac([18, -19], [4, -6, 2], "2/3", "3/4"), frac([12], [-1, 4], "3/4", "1")]


def poly(c, x):
    r = F(0)
    for a in reversed(c):
        r = r * x + a
    return r


def judge(S, x, hs, thms, what):
    recorded = []
    for h in hs:
        if len(h.dependencies) != 0:
            S.fail(f"{what}: a recorded estimate rests on nothing")
        if bool(h.data.interval.contains(x)):
            v = value(h.data.at(x))
            recorded.append(v)
            S.observe(h.name, v)
    for v in recorded:
        S.check(Or([And(lo <= x, x <= hi, v * poly(d, x) >= poly(n, x)) for n, d, lo, hi in thms]), f"{what}: no recorded estimate claims more than the theorem")
    for n, d, lo, hi in thms:
        S.check(Implies(And(lo < x, x < hi), Or([v * poly(d, x) <= poly(n, x) for v in recorded])), f"{what}: the theorem is recorded")
    S.cover("some estimate applies", len(recorded) > 0)


def h_zero(S, g, lo, hi):
    x = S.real("x", lo=F(lo), hi=F(hi))
    author, year = GROUPS[g]
    hs = [h for h in lit.sorted_of("Zero density estimate") if (lit.letters(str(h.reference.author())) in (author, "ivic" if author == "ivi" else author)) and h.reference.year() == year]
    S.check(all(isinstance(h.data, ZD.Zero_Density_Estimate) for h in hs), "zero density estimates")
    judge(S, x, hs, ZERO[GROUPS[g]], f"{author} {year}")


def h_energy(S):
    x = S.real("x", lo=F(1, 2), hi=F(999, 1000))
    hs = [h for h in lit.sorted_of("Zero density energy estimate") if lit.by(h, "heathbrown", 1979)]
    S.check(all(isinstance(h.data, ZE.Zero_Density_Energy_Estimate) for h in hs), "energy estimates")
    judge(S, x, hs, ENERGY, "Heath-Brown's energy estimate")


HARNESSES = {"zero": h_zero, "energy": h_energy}


def tasks(tier):
    t = [{"h": "energy", "cfg": {}}]
    for g in range(len(GROUPS)):
        n = len(ZERO[GROUPS[g]])
        cuts = ["1/2", "3/4", "7504/10000", "7506/10000", "751/1000", "76/100", "8/10", "999/1000"] if n > 30 else ["1/2", "97/100", "99/100", "995/1000", "9985/10000"] if n > 12 else ["1/2", "999/1000"]
        t += [{"h": "zero", "cfg": {"g": g, "lo": a, "hi": b}, "weight": n} for a, b in zip(cuts, cuts[1:])]
    for i in t:
        i["budget"] = 180 if tier == "quick" else 600
    return t
