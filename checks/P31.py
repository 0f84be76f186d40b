"""The derivations of derived.py against the theorems they re-prove."""
import ast
import contextlib
import io
import os
import sys
import types

from symx.harness import F, And, Or, Not, Implies, Iff
from symx.env import LIB
from checks.common import value
import zero_density_estimate as ZD
import zero_density_energy_estimate as ZE

BOUNDS = ("every sigma of the range of the theorem for the zero density theorems of Ingham, Huxley, Jutila, Heath-Brown (three) and Guth-Maynard, by both methods, and for the additive energy theorems; "
          "the van der Corput pairs and exponent pair proofs named per task")
ASSUMPTIONS = ["the theorems are those of the blueprint text and of the docstrings", "the final call at the end of derived.py, which runs one derivation when the file is imported, is skipped",
               "on 664/877 <= sigma < 103/136 the derivation gives a little more than the theorem it re-proves and is only required to give the theorem", "the right end point of each range is left out (estimates are half-open)", "the optimised Bourgain derivation and the longest energy derivation run in the thorough tier only"]

_mod = None


def derived():
    """derived.py without the calls it makes when imported."""
    global _mod
    if _mod is None:
        path = os.path.join(LIB, "derived.py")
        with open(path) as f:
            tree = ast.parse(f.read())
        tree.body = [n for n in tree.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
        m = types.ModuleType("derived")
        m.__file__ = path
        sys.modules["derived"] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        _mod = m
    return _mod


_memo = {}


def run(name, *a):
    """Run one derivation; it has no symbolic input, so that its outcome is shared by the paths of the query."""
    if (name, a) not in _memo:
        with contextlib.redirect_stdout(io.StringIO()):
            _memo[name, a] = getattr(derived(), name)(*a)
    return _memo[name, a]


def f(num, den):
    return [F(c) for c in num], [F(c) for c in den]


ING = ("1/2", "3/4", [f([3], [2, -1])])
HUX = ("3/4", "1", [f([3], [-1, 3])])
JUT = ("11/14", "1", [f([2], [1])])
HB1 = ("11/14", "1", [f([9], [-1, 7])])
HB2 = ("20/23", "1", [f([3], [-7, 10]), f([4], [-1, 4])])
GM = ("7/10", "9/10", [f([15], [3, 5])])
HBX = ("20/23", "1", [f([3], [-7, 10])])


def e(num, den):
    """num / (den (1 - sigma))"""
    d = [F(c) for c in den]
    return [F(c) for c in num], [a - b for a, b in zip(d + [F(0)], [F(0)] + d)]


IMP = [e([18, -19], [-2, 6]), e([40, -36], [-5, 20])]
E4 = [e([72, -91], [-56, 77]), e([90, -95], [6, 10])]

# name: (kind, ranges), a range is (from, to, formulas[, exact]); the theorem is the maximum of the formulas
THEOREMS = {
    "prove_zero_density_ingham_1940": ("zd", [ING]), "prove_zero_density_ingham_1940_v2": ("zd", [ING]),
    "prove_zero_density_huxley_1972": ("zd", [HUX]), "prove_zero_density_huxley_1972_v2": ("zd", [HUX]),
    "prove_zero_density_jutila_1977": ("zd", [JUT]), "prove_zero_density_jutila_1977_v2": ("zd", [JUT]),
    "prove_zero_density_heathbrown_1979a": ("zd", [HB1]), "prove_zero_density_heathbrown_1979a_v2": ("zd", [HB1]),
    "prove_zero_density_heathbrown_1979b": ("zd", [HB2]), "prove_zero_density_heathbrown_1979b_v2": ("zd", [HB2]),
    "prove_zero_density_guth_maynard_2024": ("zd", [GM]), "prove_zero_density_guth_maynard_2024_v2": ("zd", [GM]),
    "prove_zero_density_heathbrown_extended": ("zd", [HBX]), "prove_zero_density_heathbrown_extended_v2": ("zd", [HBX]),
    "prove_zero_density_bourgain_improved": ("zd", [("779/1000", "4/5", [f([9], [-8, 16])]), ("4/5", "1", [f([3], [0, 2])])]),
    "prove_heath_brown_energy_estimate": ("en", [("1/2", "2/3", [e([10, -11], [2, -1])]), ("2/3", "3/4", [e([18, -19], [4, -2])]),
                                                 ("3/4", "5/6", IMP), ("5/6", "25/28", [f([12], [-1, 4])])]),
    "prove_improved_heath_brown_energy_estimate": ("en", [("3/4", "4/5", IMP)]),
    "prove_zero_density_energy_2": ("en", [("7/10", "3/4", [e([90, -95], [6, 10]), e([90, -88], [15, 2])])]),
    "prove_zero_density_energy_3": ("en", [("3/4", "4/5", [e([197, -220], [-8, 40]), e([87, -90], [-5, 25]), e([40, -36], [-5, 20])])]),
    "prove_zero_density_energy_4": ("en", [("664/877", "103/136", E4, False), ("103/136", "31/40", E4)]),
    "prove_zero_density_energy_5": ("en", [("42/55", "79/103", [e([18, -19], [-66, 90]), e([54, -57], [-4, 16])])]),
    "prove_zero_density_energy_6": ("en", [("79/103", "84/109", [e([18, -19], [-54, 74]), e([90, -95], [-6, 26])])]),
    "prove_zero_density_energy_7": ("en", [("84/109", "5/6", [e([18, -19], [-18, 27]), e([40, -36], [-5, 20])])]),
    "prove_zero_density_energy_8": ("en", [("37/49", "443/586", [e([173, -270], [1488, -2000]), e([653, -890], [930, -1250]), e([1151, -1190], [-40, 300])])]),
    "prove_zero_density_energy_9": ("en", [("443/586", "373/493", [e([593, -810], [855, -1150]), e([1064, -1100], [-35, 275])])]),
    "prove_zero_density_energy_10": ("en", [("373/493", "314/415", [e([533, -730], [780, -1050])]), ("314/415", "171/226", [e([78, -99], [-62, 85])]), ("171/226", "103/136", [e([174, -185], [2, 31])])]),
}


def poly(c, x):
    r = F(0)
    for a in reversed(c):
        r = r * x + a
    return r


def h_theorem(S, name):
    kind, ranges = THEOREMS[name]
    x = S.real("x")
    S.assume(Or([And(F(lo) < x, x < F(hi)) for lo, hi, *_ in ranges]))
    hs = run(name)
    hs = [h for y in hs for h in (y if isinstance(y, list) else [y])]
    cls, typ = ((ZD.Zero_Density_Estimate, "Zero density estimate"), (ZE.Zero_Density_Energy_Estimate, "Zero density energy estimate"))[kind == "en"]
    S.check(len(hs) > 0 and all(h.hypothesis_type == typ and isinstance(h.data, cls) for h in hs), "estimates of the right kind")
    applies = []
    for h in hs:
        S.check(len(h.dependencies) > 0, "a derived estimate rests on something")
        if not bool(h.data.interval.contains(x)):
            continue
        v = value(h.data.at(x))
        applies.append(h)
        S.observe("v", v)
        for lo, hi, fs, *ex in ranges:
            if not bool(And(F(lo) < x, x < F(hi))):
                continue
            # v against max n/d, by cases on the sign of d
            vals = [(poly(n, x), poly(d, x)) for n, d in fs]
            le = Or([And(q > 0, v * q <= p) for p, q in vals] + [And(q < 0, v * q >= p) for p, q in vals])
            S.check(le, "proves the theorem")
            if ex != [False]:
                S.check(And([Or(And(q > 0, v * q >= p), And(q < 0, v * q <= p)) for p, q in vals]), "claims no more than follows")
    S.check(len(applies) > 0, "every sigma of the range has an estimate")


def h_corput(S, k):
    """One more A transform takes the van der Corput pair for k to the one for k + 1."""
    pair = run("van_der_corput_pair", k).data
    q = F(2) ** k - 2
    S.check(pair.k == 1 / q and pair.l == 1 - (k - 1) / q, "the van der Corput pair")
    D = derived()
    # inductive step, for every k: with Q = 2^k - 2 the next pair has 2 Q + 2 in place of Q and k in place of k - 1
    Q, j = S.real("Q", lo=2), S.real("j", lo=1)
    h = D.derived_exp_pair(1 / Q, 1 - j / Q, "", set())
    n = D.literature.find_hypothesis(keywords="van der Corput A transform").data.transform(h).data
    Q2 = 2 * Q + 2
    S.check(And(n.k == 1 / Q2, n.l == 1 - (j + 1) / Q2), "inductive step")


PAIRS = [("89/1282", "997/1282"), ("652397/9713986", "7599781/9713986"), ("10769/351096", "609317/702192"), ("89/3478", "15327/17390")]


def h_pair(S, pair):
    """A derived exponent pair follows from the bounds on beta that its proof rests on, for every alpha."""
    x = S.real("alpha", lo=F(0), hi=F(1, 2))
    k, l = F(pair[0]), F(pair[1])
    h = run("prove_exponent_pair", k, l)
    S.check(h is not None and h.hypothesis_type == "Exponent pair" and h.data.k == k and h.data.l == l, "a proof is found")
    below, seen = [], [h]
    for d in sorted(h.dependencies, key=str):
        S.check(d.hypothesis_type == "Upper bound on beta", "rests on bounds on beta")
        b = d.data.bound
        on = And(b.domain.x0 <= x, x <= b.domain.x1)
        below.append(And(on, b.m * x + b.c <= k + (l - k) * x))
        S.check(d.reference.is_literature() or len(d.dependencies) > 0 or d.reference.is_trivial() or d.reference.is_classical(), "each bound is recorded or derived")
    # duality: a bound at alpha for 0 <= alpha <= 1/2 suffices
    S.check(Or(below), "the bounds imply the pair")


def h_large(S):
    """The region printed by the proof of Guth and Maynard's large values theorem at tau = 6/5."""
    import re
    s, r = S.real("sigma"), S.real("rho")
    D = derived()
    if "gm" not in _memo:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            D.prove_guth_maynard_large_values_theorem()
        # the last region shown
        _memo["gm"] = [t for t in out.getvalue().splitlines() if "'" in t][-1]
    rows = []
    for c in re.findall(r"'([^']*)'", _memo["gm"]):
        m = re.fullmatch(r"(.*) (>=|=) 0", c)
        v = F(0)
        for sign, num, name in re.findall(r"([+-]?)\s*(\d+(?:/\d+)?)?([στρ]?)(?=\s|$)", m.group(1)):
            if num or name:
                # tau has been replaced by its value: the remaining variables are (sigma, rho), shown with the first two names
                v = v + (-1 if sign == "-" else 1) * (F(num) if num else F(1)) * {"": F(1), "σ": s, "τ": r}[name]
        rows.append(v >= 0 if m.group(2) == ">=" else v == 0)
    S.check(len(rows) > 0, "a region is shown")
    inr = And(rows)
    S.check(Implies(inr, And(F(7, 10) <= s, s <= F(4, 5), r <= F(18, 5) - 4 * s)), "proves the theorem")
    S.check(Implies(And(F(7, 10) <= s, s <= F(4, 5), 0 <= r, r <= F(18, 5) - 4 * s), inr), "claims no more than follows")


def h_mu(S):
    b = run("prove_hardy_littlewood_mu_bound").data
    x = S.real("x")
    S.check(Implies(x == b.sigma, And(x == F(1, 2), b.mu == F(1, 6))), "mu(1/2) <= 1/6")
    S.cover("reached", True)


HARNESSES = {"theorem": h_theorem, "corput": h_corput, "pair": h_pair, "mu": h_mu, "large": h_large}
LONG = {"prove_zero_density_energy_7", "prove_zero_density_bourgain_improved"}


def tasks(tier):
    bud = 300 if tier == "quick" else 1500
    o = []
    for n, (kind, _) in THEOREMS.items():
        if tier == "quick" and n in LONG:
            continue
        o.append({"h": "theorem", "cfg": {"name": n}, "budget": bud, "weight": 9 if kind == "en" else 4, "replay_s": 400 if tier != "quick" else 170})
    for k in range(2, 9 if tier == "quick" else 16):
        o.append({"h": "corput", "cfg": {"k": k}, "budget": bud})
    o += [{"h": "pair", "cfg": {"pair": list(p)}, "budget": bud, "weight": 8, "replay_s": 150} for p in PAIRS]
    o.append({"h": "mu", "cfg": {}, "budget": bud})
    o.append({"h": "large", "cfg": {}, "budget": bud, "weight": 3, "replay_s": 100})
    return o
