"""Recorded bounds on beta, exponent pairs and bounds on mu against the theorems of the blueprint."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import lit
from constants import Constants
import bound_beta as BB
import exponent_pair as EP

BOUNDS = "every alpha in [0, 1] for every recorded bound on beta; every (k, l) for the recorded exponent pairs; every (sigma, mu) for the recorded bounds on mu; the families with the parameter ranges that are recorded"
ASSUMPTIONS = ["the theorems are those of the blueprint text; they are not themselves proved here",
               "end points of the ranges of the theorems: a bound is only required inside, and accepted on the closed range",
               "second 2016 Robert bound: read with -alpha/(2(k-1)(k-2)) as its second term, and exponent pair from the 9th derivative test: read as (1/360, 352/360), as the code has them (the text has a misprint there)"]
K, M = Constants.BETA_TRUNCATION, Constants.EXP_PAIR_TRUNCATION


def lin(*cm):
    """a theorem: bounds c + m alpha, of which the maximum is meant."""
    return [(F(c), F(m)) for c, m in cm]


def table(s):
    """rows "c+m/d X Y" of a table"""
    out = []
    for row in s.strip().splitlines():
        c, m, d, x, y = row.split()
        out.append((lin((F(int(c), int(d)), F(int(m), int(d)))), F(x), F(y)))
    return out


HUXLEY_17_1 = table("""
4 39 60 7/12 517/873
29 42 120 65/114 7/12
89 285 570 49/114 65/114
11 78 120 5/12 49/114
13 21 60 356/873 5/12
4 103 128 12/31 356/873
29 173 280 227/601 12/31
89 908 1282 423/1295 227/601
11 191 244 87/275 423/1295
13 94 146 1424/4747 87/275
4 235 264 120/419 1424/4747
49 1351 1614 967/3428 120/419
29 464 600 199/716 967/3428
89 2243 2706 19/74 199/716
11 428 492 161/646 19/74
13 253 318 2848/12173 161/646
""")
HUXLEY_19_2 = table("""
89 285 570 106822/246639 139817/246639
2387 17972 27290 675/1574 106822/246639
2819 19177 29855 699371/1647930 675/1574
11897 88442 134680 156527/370694 699371/1647930
113 897 1345 263/638 156527/370694
491 3624 5530 143/349 263/638
569 1053 2800 307/761 143/349
1273 2484 6410 68682/171139 307/761
4 103 128 12/31 68682/171139
29 173 280 227/601 12/31
""")
HUXLEY_1993 = [(lin((F(13, 60), F(7, 20)), (F(11, 120), F(13, 20))), F(0), F(49, 114)), (lin((F(89, 570), F(1, 2))), F(49, 114), F(1, 2))] + table("""
13 94 146 0 87/275
11 191 244 87/275 423/1295
89 908 1282 423/1295 227/601
29 173 280 227/601 12/31
4 103 128 12/31 1
""")


def robert(k):
    d = 2 * (k - 1) * (k - 2)
    return lin((F(1, d), 1 - F(k, d)), (0, 1 - F(1, d))), F(0), F(k - 1, k * (k - 1) - (2 * k - 3))


def heath_brown(k):
    d = k * (k - 1)
    return lin((F(1, d), 1 - F(1, k - 1)), (0, 1 - F(1, d)), (-F(2, k * d), 1)), F(0), F(1)


half = F(1, 2)
# (author starts with, year) -> theorems (maximum of lines, from, to)
BETA = {
    ("watt", 1989): [(lin((F(89, 560), half)), F(3, 7), half)],
    ("huxleykolesnik", 1991): [(lin((F(1, 22), F(8, 22)), (F(11, 158), F(112, 158)), (F(1, 22), F(17, 22))), F(2, 5), half)],
    ("huxley", 1993): HUXLEY_1993,
    ("sargos", 1995): [(lin((F(3, 40), 1 - F(12, 40)), (0, F(7, 8)), (-F(1, 6), F(1, 3) + F(4, 6)), (0, 0)), F(0), F(1)),
                       (lin((F(1, 14), 1 - F(4, 14)), (0, F(5, 6)), (-F(1, 6), F(1, 3) + F(4, 6)), (0, 0)), F(0), F(1))],
    ("huxley", 1996): HUXLEY_17_1 + HUXLEY_19_2,
    ("huxleykolesnik", 2001): [(lin((F(7, 80), F(79, 120)), (F(3, 32), F(103, 160)), (F(9, 40), F(13, 40))), F(2, 5), half)],
    ("robertsargos", 2002): [(lin((F(1, 13), 1 - F(4, 13)), (-F(7, 13), F(28, 13))), F(0), F(1))],
    ("sargos", 2003): [(lin((F(1, 204), 1 - F(8, 204)), (-F(95, 204), F(760, 204))), F(0), F(1)),
                       (lin((F(7, 2640), 1 - F(63, 2640)), (-F(1001, 2640), F(9009, 2640))), F(0), F(1))],
    ("huxley", 2005): [(lin((F(37, 170), F(59, 170)), (F(63, 690), F(449, 690))), F(1, 3), half)],
    ("robert", 2016): [(lin((F(1, 12), 1 - F(4, 12)), (0, F(11, 12))), F(0), F(3, 7))] + [robert(k) for k in range(4, K)],
    ("heathbrown", 2017): [heath_brown(k) for k in range(3, K)],
    ("bourgain", 2017): [(lin((F(2, 9), F(1, 3))), F(1, 3), F(5, 12)), (lin((F(1, 12), F(2, 3))), F(5, 12), F(3, 7)), (lin((F(13, 84), half)), F(3, 7), half)],
    ("trudgianyang", 2023): [(lin((F(13, 414), F(359, 414))), F(0), F(2848, 12173)), (lin((F(13, 194), F(139, 194))), F(1328, 4447), F(104, 343)),
                             (lin((F(18, 199), F(521, 796))), F(1508, 3825), F(62831, 155153))],
}
GROUPS = sorted(BETA)


def sym_pair(k):
    return (k, k + half)


def deriv(k, m):
    return (k, 1 - m * k)


PAIRS = {
    1988: [sym_pair(F(9, 56))], 1989: [sym_pair(F(89, 560))], 1991: [sym_pair(F(17, 108))], 1993: [sym_pair(F(89, 570))], 2005: [sym_pair(F(32, 205))],
    2017: [sym_pair(F(13, 84))] + [(F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))) for m in range(3, M)],
    1990: [(F(2, 13), F(35, 52))],
    1996: [(F(6299, 43860), F(29507, 43860))] + [(F(169, 1424 * 2 ** m - 338), 1 - F(169, 1424 * 2 ** m - 338) * F(712 * m + 1577, 712)) for m in range(1, M)],
    1995: [(F(771, 8116), F(1499, 2029)), (F(21, 232), F(173, 232)), (F(1959, 21656), F(16135, 21656))],
    2001: [(F(516247, 6629696), F(5080955, 6629696)), deriv(F(1, 649), 9)],
    2002: [deriv(F(1, 13), 3), deriv(F(1, 360), 8), deriv(F(7, 4540), 9), deriv(F(1, 615), 9), deriv(F(1, 915), 10)],
    2003: [deriv(F(1, 204), 7), deriv(F(7, 2640), 8), deriv(F(1, 716), 9)],
    2023: [(F(4742, 38463), F(35731, 51284)), (F(18, 199), F(593, 796)), (F(2779, 38033), F(58699, 76066)), (F(715, 10238), F(7955, 10238))],
}
MU = {
    1923: ["1/2 1/6"], 1924: ["1/2 193/988"], 1931: ["1/2 27/164"], 1933: ["1/2 229/1392"], 1942: ["1/2 19/116"], 1949: ["1/2 15/92"], 1963: ["1/2 6/37"],
    1973: ["1/2 173/1067"], 1982: ["1/2 35/216"], 1985: ["1/2 139/858"], 1986: ["1/2 9/56"], 1989: ["1/2 89/560"], 1991: ["1/2 17/108"], 1993: ["1/2 89/570"],
    1996: ["1934/3655 6299/43860"], 2003: ["49/51 1/204", "361/370 1/370"], 2005: ["1/2 32/205"], 2014: ["3/5 1409/12170", "4/5 3/71"], 2017: ["1/2 13/84"], 2020: ["11/15 1/15"],
}
SEQ = [(1 - F(n, 2 ** n - 2), F(1, 2 ** n - 2)) for n in range(4, M)]                      # van der Corput
SEQ_HL = [(1 - F(1, 2 ** (n - 1)), F(1, (n + 1) * 2 ** (n - 1))) for n in range(4, M)]     # Hardy and Littlewood


def h_beta(S, g, lo, hi):
    a = S.real("a", lo=F(lo), hi=F(hi))
    author, year = GROUPS[g]
    thms = BETA[GROUPS[g]]
    recorded = []
    for h in lit.sorted_of("Upper bound on beta"):
        if lit.by(h, author, year):
            if not (isinstance(h.data, BB.Bound_beta) and len(h.dependencies) == 0):
                S.fail("a recorded bound on beta, resting on nothing")
            v = h.data.bound.at(a)
            if v is not None:
                recorded.append(v)
    for v in recorded:
        S.check(Or([And([x <= a, a <= y] + [v >= c + m * a for c, m in t]) for t, x, y in thms]), f"{author} {year}: no recorded bound claims more than the theorem")
    for t, x, y in thms:
        S.check(Implies(And(x < a, a < y), Or([v <= c + m * a for v in recorded for c, m in t])), f"{author} {year}: the theorem is recorded")
    S.cover("some bound applies", len(recorded) > 0)


def same(S, recorded, listed, p, what):
    x, y = p
    S.check(Iff(Or([And(x == a, y == b) for a, b in recorded]), Or([And(x == a, y == b) for a, b in listed])), what)


def h_pairs(S):
    k, l = S.real("k", lo=0, hi=1), S.real("l", lo=0, hi=1)
    years = {}
    for h in lit.sorted_of("Exponent pair"):
        if not (isinstance(h.data, EP.Exp_pair) and len(h.dependencies) == 0):
            S.fail("a recorded exponent pair, resting on nothing")
        years.setdefault(h.reference.year(), []).append((h.data.k, h.data.l))
    for y in sorted(set(years) | set(PAIRS), key=str):
        same(S, years.get(y, []), PAIRS.get(y, []), (k, l), f"exponent pairs of {y}")


def h_mu(S):
    s, m = S.real("s", lo=0, hi=1), S.real("m", lo=0, hi=1)
    years = {}
    for h in lit.sorted_of("Upper bound on mu"):
        if len(h.dependencies) != 0:
            S.fail("a recorded bound on mu rests on nothing")
        years.setdefault(h.reference.year(), []).append((h.data.sigma, h.data.mu))
    want = {y: [tuple(F(t) for t in r.split()) for r in rows] for y, rows in MU.items()}
    want[1920] = SEQ
    undated = [y for y in years if not isinstance(y, int)]
    for y in sorted(want):
        same(S, years.get(y, []), want[y], (s, m), f"bounds on mu of {y}")
    same(S, [p for y in undated for p in years[y]], SEQ_HL, (s, m), "Hardy and Littlewood's bounds on mu")
    S.check(set(y for y in years if isinstance(y, int)) <= set(want), "no bounds on mu of other years")


SELECT = {"pairs": ("Exponent pair", "add_exp_pairs_all", "add_exp_pairs_up_to"), "mu": ("Upper bound on mu", "add_bounds_mu_all", "add_bounds_mu_as_of")}


def h_select(S, what):
    """all recorded results of one kind, and those known in an arbitrary year."""
    y = S.real("year", lo=0, hi=3000)
    typ, all_, upto = SELECT[what]
    import literature as L
    from hypotheses import Hypothesis_Set
    recorded = [h for h in L.literature.hypotheses if h.hypothesis_type == typ]
    extra = [L.trivial_exp_pair] if what == "pairs" else []
    A = Hypothesis_Set()
    getattr(L, all_)(A)
    S.check(A.hypotheses == set(recorded + extra), "all results of the kind are added")
    A = Hypothesis_Set()
    getattr(L, upto)(A, y)
    for h in recorded + extra:
        year = h.reference.year()
        known = False if h.reference.label == "Conjectured" else True if h.reference.label in ("Classical", "Derived") else False if year == "Unknown date" else (F(int(year)) <= y)
        S.check(Iff(h in A.hypotheses, known), "exactly the results known in that year are added")
    S.check(A.hypotheses <= set(recorded + extra), "nothing else is added")
    if what == "mu":
        A = Hypothesis_Set()
        L.add_bounds_mu_classic(A)
        S.check([(h.data.sigma, h.data.mu) for h in A.hypotheses] == [(F(1, 2), F(1, 6))] and A.hypotheses <= set(recorded), "the classical bound is mu(1/2) <= 1/6")


HARNESSES = {"select": h_select, "beta": h_beta, "pairs": h_pairs, "mu": h_mu}


def tasks(tier):
    t = [{"h": "pairs", "cfg": {}}, {"h": "mu", "cfg": {}}, {"h": "select", "cfg": {"what": "pairs"}}, {"h": "select", "cfg": {"what": "mu"}}]
    for g in range(len(GROUPS)):
        cuts = ["0", "1/4", "1/3", "2/5", "1/2", "1"] if len(BETA[GROUPS[g]]) > 12 else ["0", "1"]
        t += [{"h": "beta", "cfg": {"g": g, "lo": a, "hi": b}} for a, b in zip(cuts, cuts[1:])]
    for i in t:
        i["budget"] = 120 if tier == "quick" else 600
    return t
