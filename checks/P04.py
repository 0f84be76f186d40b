"""Set difference of polytopes."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from polytope import Polytope

BOUNDS = "pairs of templates in dimension 1-3 (concrete normals, arbitrary rational offsets), an arbitrary point, at most one earlier question per operand"
ASSUMPTIONS = ["boundaries are ignored, as documented; points are taken off the bounding hyperplanes"]


def h_minus(S, a, b, simplify, hist=""):
    P, d, I, E = geo.make(S, "a", a)
    Q, _, J, G = geo.make(S, "b", b)
    if "a" in hist:
        P = geo.ask(S, P, d, I, E, a in geo.BOUNDED, "p")
    if "b" in hist:
        Q = geo.ask(S, Q, d, J, G, b in geo.BOUNDED, "q")
    parts = P.set_minus(Q, simplify) if not simplify else P.set_minus(Q)
    x = geo.point(S, d)
    # off every bounding hyperplane
    S.assume(And([geo.row_at(r, x) != 0 for r in I + J + G]))
    inA, inB = geo.inside(I, E, x), geo.inside(J, G, x)
    ins = [geo.mat_in(p, x) for p in parts]
    S.check(Implies(And(inA, Not(inB)), Or(ins)), "every point of A outside B is in some part")
    S.check(Implies(Or(ins), inA), "every part lies in A")
    S.check(Implies(Or(ins), Not(inB)), "no part meets B")
    S.check(And([Not(And(u, v)) for i, u in enumerate(ins) for v in ins[:i]]), "parts are disjoint")
    S.check(And(geo.unchanged(P, I, E), geo.unchanged(Q, J, G)), "operands unchanged")
    if simplify:
        for p in parts:
            S.check(not bool(p.is_empty(include_boundary=False)), "no empty part is returned")
    S.cover("left over", And(inA, Not(inB)))
    S.cover("removed", And(inA, inB))
    S.observe("in", [bool(Or(ins)) if not S.sym else Or(ins)])


def h_self(S, a):
    P, d, I, E = geo.make(S, "a", a)
    x = geo.point(S, d)
    S.assume(And([geo.row_at(r, x) != 0 for r in I]))
    for simplify in (True, False):
        for p in P.set_minus(P, simplify):
            S.check(Not(geo.mat_in(p, x)), "nothing is left of a polytope without itself")
    S.check(geo.unchanged(P, I, E), "operand unchanged")
    S.cover("any")


HARNESSES = {"self": h_self, "minus": h_minus}


def tasks(tier):
    o = []
    for a, b in (("seg", "seg"), ("ray", "seg"), ("seg", "pt1"), ("seg", "seg3"), ("tri", "half"), ("half", "tri"), ("box", "half"), ("tri", "tri2"),
                 ("tri", "line"), ("strip", "wedge"), ("half", "lineq"), ("strip", "pt"), ("simp3", "slab3")):
        o.append({"h": "minus", "cfg": {"a": a, "b": b, "simplify": True}, "budget": 300})
        o.append({"h": "minus", "cfg": {"a": a, "b": b, "simplify": False}, "budget": 300})
    o += [{"h": "minus", "cfg": {"a": a, "b": b, "simplify": True, "hist": h}, "budget": 350, "weight": 3} for a, b, h in (
        ("seg", "seg", "a"), ("seg", "seg", "b"), ("tri", "strip", "a"), ("half", "tri", "b"))]
    o += [{"h": "self", "cfg": {"a": a}, "budget": 300} for a in ("seg", "ray", "tri", "half")]
    if tier != "quick":
        o += [{"h": "minus", "cfg": {"a": a, "b": b, "simplify": True, "hist": h}, "budget": 1500, "weight": 3} for a, b, h in (
            ("seg", "seg", "ab"), ("box", "strip", "ab"), ("tri", "tri2", "a"))]
        for a, b in (("box", "box"), ("box", "tri"), ("box", "pent"), ("box3", "slab3")):
            o.append({"h": "minus", "cfg": {"a": a, "b": b, "simplify": True}, "budget": 1200})
    return o
