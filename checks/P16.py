"""Hypotheses: dependency closure, dates, complexity, selection by type, year, keyword and data."""
import contextlib
import copy
import io
import re
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import hyp
from checks.text import PRINT, Text, same, within
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from exponent_pair import Exp_pair, derived_exp_pair
from bound_mu import Bound_mu, derived_bound_mu
from bound_beta import derived_bound_beta
from functions import Affine, Interval

BOUNDS = ("every dependency graph on 4 hypotheses (each pair linked or not, acyclic), every assignment of arbitrary years or an unknown / conjectured date; "
          "selection among 3 hypotheses with arbitrary years, types and data; both iteration orders of sets; "
          "keyword searches over names and keyword lists of up to 3 arbitrary printable characters")
ASSUMPTIONS = ["dependencies are acyclic"]

KINDS = ("dated", "unknown", "conjectured", "classical", "derived")


def ref(S, i, kinds=KINDS):
    k = S.choice(f"kind{i}", kinds)
    y = S.real(f"y{i}", lo=0, hi=3000) if k in ("dated", "derived") else None
    if k == "dated":
        return k, y, Reference.make(f"author{i}", y)
    if k == "unknown":
        return k, None, Reference(f"x{i}", "article", {"author": "X"})
    if k == "conjectured":
        return k, float("inf"), Reference.conjectured()
    if k == "classical":
        return k, F(-1), Reference.classical()
    return k, y, Reference.derived(y)


def make(i, r, typ="T", data=None):
    return Hypothesis(f"h{i}", typ, data if data is not None else Exp_pair(F(i), F(1)), "p", r)


def closure(E, n, i):
    out, todo = set(), list(E.get(i, ()))
    while todo:
        j = todo.pop()
        if j not in out:
            out.add(j)
            todo += E.get(j, ())
    return out


def h_graph(S, n):
    hyp.begin_any(S)
    ys = S.reals([f"y{i}" for i in range(n)], lo=0)
    hs = [make(i, Reference.make("A", ys[i])) for i in range(n)]
    E = {}
    for i in range(n):
        E[i] = [j for j in range(i) if S.boolean(f"e{i}{j}")]
        for j in E[i]:
            hs[i].add_dependency(hs[j])
    top = n - 1
    want = closure(E, n, top)
    got = hs[top].recursive_dependencies()
    S.check({h.name for h in got} == {f"h{j}" for j in want}, "recursive dependencies are everything reachable")
    S.check(len(got) == len(want), "each dependency is listed once")
    S.check(hs[top].dependencies == {hs[j] for j in E[top]}, "direct dependencies unchanged")

    def size(i):
        return 1 + sum(size(j) for j in E[i])
    S.check(hs[top].proof_complexity() == size(top), "complexity counts the steps of the proof tree")
    d = hs[top].proof_date()
    S.check(And([ys[j] <= d for j in [top] + sorted(want)] + [Or([ys[j] == d for j in [top] + sorted(want)])]), "date of the latest hypothesis used")


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return [(len(l) - len(l.lstrip()), re.findall(r"\bh(\d)\b", l)) for l in out.getvalue().splitlines() if re.search(r"\bh\d\b", l)]


def h_listing(S, n):
    """The printed proof is the proof tree, one level of indentation per step."""
    hyp.begin_any(S)
    hs = [make(i, Reference.make("A", F(i))) for i in range(n)]
    E = {}
    for i in range(n):
        E[i] = [j for j in range(i) if S.boolean(f"e{i}{j}")]
        for j in E[i]:
            hs[i].add_dependency(hs[j])

    def tree(i):
        return (i, sorted(tree(j) for j in E[i]))

    def parse(lines):
        # the first line and, below it, the lines indented deeper
        (d, name), rest = lines[0], lines[1:]
        subs, k = [], 0
        while k < len(rest):
            e = k + 1
            while e < len(rest) and rest[e][0] > rest[k][0]:
                e += 1
            subs.append(parse(rest[k:e]))
            k = e
        return (int(name[0]), sorted(subs))
    lines = printed(hs[-1].recursively_list_proofs)
    S.check(all(len(w) == 1 for _, w in lines) and len(lines) > 0 and all(d > lines[0][0] for d, _ in lines[1:]), "one line per step, the result first")
    S.check(parse(lines) == tree(n - 1), "the printed proof is the proof tree")
    S.check(sorted(w for _, w in printed(Hypothesis_Set(hs).list_proofs)) == [[str(i)] for i in range(n)], "a set lists the proof of each member once")
    t = hs[-1].desc_with_proof()
    S.check(all(x in t for x in (hs[-1].name, str(hs[-1].data), "p")) and hs[-1].name in hs[-1].desc() and str(hs[-1]) == hs[-1].name, "descriptions name the hypothesis and its data")


def h_date(S, shape):
    """The date of a proof is the latest date in it."""
    hyp.begin_any(S)
    n = 3
    R = [ref(S, i, ("dated", "unknown", "classical")) for i in range(n)]
    hs = [make(i, r[2]) for i, r in enumerate(R)]
    E = {"chain": {2: [1], 1: [0]}, "fan": {2: [0, 1]}, "tri": {2: [0, 1], 1: [0]}}[shape]
    for i, js in E.items():
        for j in js:
            hs[i].add_dependency(hs[j])
    d = hs[2].proof_date()
    ys = [R[i][1] if R[i][1] is not None else F(-1) for i in [2] + sorted(closure(E, n, 2))]
    S.check(And([y <= d for y in ys]), "no part of the proof is later")
    S.check(Or([y == d for y in ys]), "some part of the proof has that date")


def h_maxyear(S, n):
    R = [ref(S, i, ("dated", "unknown", "classical", "conjectured")) for i in range(n)]
    y = Reference.max_year([r[2] for r in R])
    if any(r[0] == "unknown" for r in R):
        S.check(y == "Unknown date", "an unknown date makes the result's date unknown")
    elif n == 0:
        S.check(y == -1, "nothing used: no date")
    elif any(r[0] == "conjectured" for r in R):
        S.check(y == float("inf"), "a conjecture dates the result")
    else:
        S.check(And([r[1] <= y for r in R]), "not before any source")
        S.check(Or([r[1] == y for r in R]), "the date of some source")


def h_derived(S, which):
    """A derived result carries its dependencies and the date of the latest one."""
    R = [ref(S, i, ("dated", "classical")) for i in range(2)]
    deps = {make(i, r[2]) for i, r in enumerate(R)}
    k, l = S.reals("k l")
    if which == "ep":
        h, typ = derived_exp_pair(k, l, "why", deps), "Exponent pair"
        S.check(And(h.data.k == k, h.data.l == l), "the derived data")
    elif which == "mu":
        h, typ = derived_bound_mu(k, l, "why", deps), "Upper bound on mu"
        S.check(And(h.data.sigma == k, h.data.mu == l), "the derived data")
    else:
        h, typ = derived_bound_beta(Affine(k, l, Interval(F(0), F(1, 2))), "why", deps), "Upper bound on beta"
        S.check(And(h.data.bound.m == k, h.data.bound.c == l), "the derived data")
    S.check(h.hypothesis_type == typ and h.proof == "why", "type and proof")
    S.check(h.dependencies == deps, "all dependencies recorded")
    y = h.reference.year()
    S.check(And([r[1] <= y for r in R] + [Or([r[1] == y for r in R])]), "dated by its latest dependency")


def h_select(S):
    hyp.begin_any(S)
    year = S.real("year", lo=0, hi=3000)
    hs, info = [], []
    for i in range(3):
        k, y, r = ref(S, i, KINDS if i == 0 else ("dated", "conjectured", "unknown"))
        t = S.choice(f"t{i}", ("T", "U"))
        hs.append(make(i, r, t))
        info.append((k, y, t))
    H = Hypothesis_Set(hs)
    typ = S.choice("typ", ("Any", "T"))
    got = H.list_hypotheses(typ, year)
    allg = H.list_hypotheses(typ)
    S.check(len(got) == len(set(map(id, got))), "nothing listed twice")
    for h, (k, y, t) in zip(hs, info):
        okt = typ == "Any" or t == typ
        okd = {"dated": None, "unknown": False, "conjectured": False, "classical": True, "derived": True}[k]
        if okd is None:
            okd = y <= year
        S.check(Iff(h in got, And(okt, okd)), "listed iff of the type and known by the year")
        S.check((h in allg) == okt, "without a year, all of the type are listed")
    S.check(set(H.to_list()) == set(hs) and set(iter(H)) == set(hs), "the set lists its members")


def h_find(S):
    hyp.begin_any(S)
    names = ("Ford bound 2002", "Ford estimate", "Huxley bound 2002")
    k = S.real("k")
    hs = []
    for i in range(3):
        y = S.real(f"y{i}", lo=0)
        hs.append(Hypothesis(names[i], S.choice(f"t{i}", ("T", "U")), Exp_pair(S.real(f"k{i}"), F(1)), "p", Reference.make("Z", y)))
    H = Hypothesis_Set(hs)
    typ = S.choice("typ", ("Any", "T"))
    kw = S.choice("kw", ("Any", "Ford", "2002, bound", "bound,Hux", "nothing"))
    data = Exp_pair(k, F(1)) if S.boolean("bydata") else "Any"
    year = S.real("year") if S.boolean("byyear") else "Any"
    got = H.find_hypothesis(typ, data, kw, year)

    def ok(h):
        return And(typ == "Any" or h.hypothesis_type == typ, kw == "Any" or all(w.strip() in h.name for w in kw.split(",")),
                   True if data == "Any" else h.data.k == k, True if year == "Any" else h.reference.year() == year)
    if got is None:
        S.check(Not(Or([ok(h) for h in hs])), "nothing is returned only if nothing matches")
    else:
        S.check(any(got is h for h in hs), "a member of the set")
        S.check(ok(got), "what is returned matches every criterion")


def h_words(S, names, words):
    """Search by keywords, the names and the keywords being arbitrary text."""
    hyp.begin_any(S)
    t = Text(S)
    hs = [Hypothesis(t.word(n, PRINT), "T", Exp_pair(F(i), F(1)), "p", Reference.make("Z", F(2000))) for i, n in enumerate(names)]
    kw = t.word(words, PRINT)
    S.assume(Not(same(S, kw, "Any")))
    got = Hypothesis_Set(hs).find_hypothesis(keywords=kw)
    ws = [w.strip() for w in kw.split(",")]

    def ok(h):
        return And([within(S, w, h.name) for w in ws])
    if got is None:
        S.check(Not(Or([ok(h) for h in hs])), "nothing is returned only if no name has all the words")
    else:
        S.check(any(got is h for h in hs), "a member of the set")
        S.check(ok(got), "every word occurs in the name of what is returned")


def h_set(S):
    """Adding single hypotheses, lists, sets and hypothesis sets; copies are independent."""
    hyp.begin_any(S)
    hs = [make(i, Reference.make("A", F(i))) for i in range(4)]
    H = Hypothesis_Set()
    want = set()
    for i in range(2):
        a = S.int(f"a{i}", 0, 3)
        b = (a + 1) % 4
        how = S.choice(f"how{i}", ("one", "list", "set", "hset", "gen"))
        if how == "one":
            H.add_hypotheses(hs[a])
            want |= {hs[a]}
        else:
            v = {"list": [hs[a], hs[b]], "set": {hs[a], hs[b]}, "hset": Hypothesis_Set([hs[a], hs[b]]), "gen": (h for h in (hs[a], hs[b]))}[how]
            H.add_hypotheses(v)
            want |= {hs[a], hs[b]}
    S.check(H.hypotheses == want and len(H) == len(want), "the union of everything added")
    C = copy.copy(H)
    C.add_hypothesis(hs[0])
    S.check(H.hypotheses == want, "adding to a copy leaves the original")
    S.check(C.hypotheses == want | {hs[0]}, "the copy has both")
    S.check(Hypothesis_Set().hypotheses == set(), "a new set is empty")


def h_refs(S):
    """what the kinds of references say about themselves."""
    y = S.real("y", lo=0, hi=3000)
    k = S.choice("kind", ("classical", "derived", "conjectured", "trivial", "made", "undated"))
    r = {"classical": Reference.classical, "conjectured": Reference.conjectured, "trivial": Reference.trivial, "derived": lambda: Reference.derived(y),
         "made": lambda: Reference.make("A. Author", y), "undated": lambda: Reference("x", "article", {})}[k]()
    S.check(bool(r.is_classical()) == (k == "classical"), "classical")
    S.check(bool(r.is_derived()) == (k == "derived"), "derived")
    S.check(bool(r.is_conjectured()) == (k == "conjectured"), "conjectured")
    S.check(bool(r.is_trivial()) == (k == "trivial"), "trivial")
    S.check(bool(r.is_literature()) == (k in ("made", "undated", "trivial")), "literature is what is neither classical nor derived nor conjectured")
    S.check(r.author() == ("A. Author" if k == "made" else "Unknown author"), "author")
    S.check({"classical": lambda: r.year() == -1, "trivial": lambda: r.year() == -1, "conjectured": lambda: r.year() == float("inf"), "undated": lambda: r.year() == "Unknown date"}
            .get(k, lambda: r.year() == y)(), "year")


HARNESSES = {"refs": h_refs, "graph": h_graph, "listing": h_listing, "date": h_date, "maxyear": h_maxyear, "derived": h_derived, "select": h_select, "find": h_find, "words": h_words, "set": h_set}


def tasks(tier):
    o = [{"h": "graph", "cfg": {"n": n}, "budget": 350, "weight": n} for n in ((3, 4) if tier == "quick" else (3, 4, 5))]
    o += [{"h": "listing", "cfg": {"n": n}, "budget": 350, "weight": n} for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5))]
    o += [{"h": "date", "cfg": {"shape": s}} for s in ("chain", "fan", "tri")]
    o += [{"h": "maxyear", "cfg": {"n": n}} for n in (0, 1, 2, 3)]
    o += [{"h": "derived", "cfg": {"which": w}} for w in ("ep", "mu", "beta")]
    o += [{"h": "refs"}]
    o += [{"h": "select", "budget": 350, "weight": 3}, {"h": "find", "budget": 350, "weight": 3}, {"h": "set", "budget": 350, "weight": 3}]
    o += [{"h": "words", "cfg": c, "budget": 350, "weight": 3} for c in ({"names": ["x??"], "words": "???"}, {"names": ["??", "a?a"], "words": "a?"}, {"names": ["? b"], "words": "?,?b"}, {"names": ["?"], "words": " ?, b?"}, {"names": ["", "A?"], "words": "?"})]
    return o
