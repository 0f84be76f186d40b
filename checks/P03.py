"""Subset and cover verdicts between polytopes."""
import itertools
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from polytope import Polytope

BOUNDS = ("pairs (subset) and 1 polytope against up to 3 (cover) from the templates in dimension 1-3, concrete "
          "normals, arbitrary rational offsets")
ASSUMPTIONS = ["cover verdicts ignore boundaries, as documented: the covered polytope is assumed full-dimensional"]


def outside_rows(I, E):
    """Strict rows, one of which holds at every point outside the polytope."""
    out = [[-a for a in r] for r in I]
    for r in E:
        out += [[-a for a in r], list(r)]
    return out


def h_subset(S, a, b, hist=""):
    P, d, I, E = geo.make(S, "a", a)
    Q, _, J, G = geo.make(S, "b", b)
    if "a" in hist:
        P = geo.ask(S, P, d, I, E, a in geo.BOUNDED, "p")
    if "b" in hist:
        Q = geo.ask(S, Q, d, J, G, b in geo.BOUNDED, "q")
    bad = Or([geo.mixed(I, [r], E, d) for r in outside_rows(J, G)])
    r = bool(P.is_subset_of(Q))
    S.check(Iff(r, Not(bad)), "subset iff no point of the first lies outside the second")
    x = geo.point(S, d)
    if r:
        S.check(Implies(geo.inside(I, E, x), geo.inside(J, G, x)), "every point is shared")
    S.check(And(geo.unchanged(P, I, E), geo.unchanged(Q, J, G)), "operands unchanged")
    S.cover("subset", r)
    S.cover("not subset", not r)
    S.cover("empty first", Not(geo.nonempty(I, E, d)))
    S.observe("r", r)


def h_refl(S, a):
    P, d, I, E = geo.make(S, "a", a)
    S.check(bool(P.is_subset_of(P)), "a polytope is a subset of itself")
    Q, _, J, G = geo.make(S, "b", a)
    if bool(geo.nonempty_strict(I, E, d)):
        S.check(And(bool(P.is_covered_by([P])), bool(P.is_covered_by([P, P]))), "a polytope covers itself")
    R = Polytope.intersection([P, Q])
    S.check(bool(R.is_subset_of(Q)), "an intersection is a subset of each part")


def h_cover(S, a, bs, hist=""):
    P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty_strict(I, E, d))
    Qs = [geo.make(S, "bcde"[i], b) for i, b in enumerate(bs)]
    if "a" in hist:
        P = geo.ask(S, P, d, I, E, a in geo.BOUNDED, "p")
    if "b" in hist:
        Qs[0] = (geo.ask(S, *Qs[0], bs[0] in geo.BOUNDED, "q"),) + Qs[0][1:]
    outs = [outside_rows(q[2], q[3]) for q in Qs]
    bad = Or([geo.mixed(I, list(c), E, d) for c in itertools.product(*outs)])
    r = bool(P.is_covered_by([q[0] for q in Qs]))
    S.check(Iff(r, Not(bad)), "covered iff no part of the first is outside the union")
    x = geo.point(S, d)
    if r:
        S.check(Implies(geo.strictly(I, E, x), Or([geo.inside(q[2], q[3], x) for q in Qs])),
                "every interior point is in the union")
    S.check(geo.unchanged(P, I, E), "operand unchanged")
    S.cover("covered", r)
    S.cover("not covered", not r)
    S.observe("r", r)


def h_none(S, a):
    P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty_strict(I, E, d))
    S.check(not bool(P.is_covered_by([])), "nothing does not cover a non-empty polytope")


HARNESSES = {"subset": h_subset, "refl": h_refl, "cover": h_cover, "none": h_none}


def tasks(tier):
    q = tier == "quick"
    o = [{"h": "subset", "cfg": {"a": a, "b": b}, "budget": 300} for a, b in
         (("seg", "seg"), ("seg", "seg3"), ("ray", "seg"), ("seg", "ray"), ("box", "tri"), ("tri", "half"), ("tri", "tri2"),
          ("half", "strip"), ("wedge", "half"), ("strip", "wedge"), ("lineq", "strip"), ("box", "lineq"), ("line", "box"), ("pt", "tri"),
          ("simp3", "slab3"), ("pt", "lineq"))]
    o += [{"h": "refl", "cfg": {"a": a}, "budget": 300} for a in ("seg", "ray", "tri", "wedge", "line", "strip")]
    o += [{"h": "cover", "cfg": {"a": a, "bs": bs}, "budget": 300, "weight": 3} for a, bs in
          (("seg", ["seg"]), ("seg", ["seg", "seg"]), ("seg", ["ray", "pt1"]), ("ray", ["ray", "seg"]),
           ("tri", ["half", "half"]), ("strip", ["half", "strip"]), ("tri", ["strip", "lineq"]), ("box", ["tri"]), ("tri", ["half", "tri2"]))]
    o += [{"h": "none", "cfg": {"a": a}} for a in ("seg", "tri", "half")]
    o += [{"h": "subset", "cfg": {"a": a, "b": b, "hist": h}, "budget": 350, "weight": 3} for a, b, h in (
        ("seg", "seg", "a"), ("ray", "seg", "b"), ("tri", "half", "a"), ("half", "half", "ab"))]
    o += [{"h": "cover", "cfg": {"a": a, "bs": bs, "hist": h}, "budget": 350, "weight": 4} for a, bs, h in (
        ("seg", ["seg", "ray"], "a"), ("seg", ["seg", "ray"], "b"), ("tri", ["half"], "a"))]
    if not q:
        o += [{"h": "subset", "cfg": {"a": a, "b": b, "hist": h}, "budget": 1500, "weight": 3} for a, b, h in (
            ("seg", "seg", "ab"), ("half", "strip", "ab"), ("line", "tri", "a"))]
        o += [{"h": "cover", "cfg": {"a": "tri", "bs": ["half"], "hist": "ab"}, "budget": 1500, "weight": 4}]
        o += [{"h": "subset", "cfg": {"a": a, "b": b}, "budget": 900} for a, b in (("box", "box"), ("pent", "tri"), ("flat3", "simp3"), ("box3", "simp3"))]
        o += [{"h": "cover", "cfg": {"a": a, "bs": bs}, "budget": 900, "weight": 3} for a, bs in
              (("seg", ["seg", "seg", "seg"]), ("box", ["strip", "half"]), ("tri", ["tri", "tri2"]), ("simp3", ["slab3"]), ("strip", ["half", "half", "half"]))]
    return o
