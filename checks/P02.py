"""Emptiness verdicts of a polytope, with and without its boundary."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from polytope import Polytope

BOUNDS = ("templates in dimension 1-3 (up to 7 rows, concrete normals, arbitrary rational offsets), plus 1-D and "
          "2-D systems with arbitrary rational normals (up to 2 rows); verdicts asked repeatedly and after any "
          "1 or 2 of eleven earlier questions or operations")
ASSUMPTIONS = ["at least one constraint row"]


def h_empty(S, a):
    P, d, I, E = geo.make(S, "a", a)
    full = geo.nonempty(I, E, d)
    inner = False if E else geo.nonempty_strict(I, E, d)
    e1 = bool(P.is_empty())
    S.check(Iff(e1, Not(full)), "empty iff no point satisfies the constraints")
    e2 = bool(P.is_empty(include_boundary=False))
    S.check(Iff(e2, Not(inner)), "empty without boundary iff no interior point")
    S.check(bool(P.is_empty(include_boundary=True)) == e1, "asking again gives the same verdict")
    S.check(bool(P.is_empty(include_boundary=False)) == e2, "asking again gives the same verdict")
    x = geo.point(S, d)
    if e1:
        S.check(Not(geo.inside(I, E, x)), "an empty polytope has no point")
    if e2:
        S.check(Not(geo.strictly(I, E, x)) if not E else True, "no strict point")
    S.cover("empty", e1)
    S.cover("flat", And(not e1, e2))
    S.cover("solid", not e2)
    S.observe("e", [e1, e2])


def h_copy(S, a):
    import copy
    P, d, I, E = geo.make(S, "a", a)
    inner = False if E else geo.nonempty_strict(I, E, d)
    P.is_empty()
    Q = copy.copy(P)
    r = [S.real(f"c{i}") if i == 0 else F(i) for i in range(d + 1)]
    Q.mat.extend([r], linear=False)
    S.check(Iff(bool(Q.is_empty()), Not(geo.nonempty(I + [r], E, d))), "a changed copy is judged afresh")
    P.canonicalize()
    S.check(Iff(bool(P.is_empty()), Not(geo.nonempty(I, E, d))), "same verdict after canonicalisation")
    S.check(Iff(bool(P.is_empty(include_boundary=False)), Not(inner)), "same verdict after canonicalisation")
    S.check(Iff(bool(P.is_full_dim()), inner), "full-dimensional iff it has an interior") if a not in ("pt",) else None


def h_fulldim(S, a):
    P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty(I, E, d))
    inner = False if E else geo.nonempty_strict(I, E, d)
    S.check(Iff(bool(P.is_full_dim()), inner), "full-dimensional iff it has an interior")
    S.cover("flat", Not(inner))


def h_arb(S, d, n):
    I = [[S.real(f"a{i}_{j}") for j in range(d + 1)] for i in range(n)]
    for r in I:
        S.assume(Or([c != 0 for c in r[1:]]))
    P = Polytope([list(r) for r in I])
    x = geo.point(S, d)
    e = bool(P.is_empty())
    if e:
        S.check(Not(geo.inside(I, [], x)), "an empty polytope has no point")
    e2 = bool(P.is_empty(include_boundary=False))
    if e2:
        S.check(Not(geo.strictly(I, [], x)), "no strict point")
    if d == 1 and n == 2:
        (b, a), (q, p) = I
        # both bound x on the same side, or the two bounds are consistent
        cons = Or(a * p > 0, And(a > 0, p < 0, b * p <= a * q), And(a < 0, p > 0, q * a <= b * p))
        strict = Or(a * p > 0, And(a > 0, p < 0, b * p < a * q), And(a < 0, p > 0, q * a < b * p))
        S.check(Iff(e, Not(cons)), "empty iff the two bounds are inconsistent")
        S.check(Iff(e2, Not(strict)), "empty without boundary iff the bounds do not leave a gap")


def h_point(S, d):
    """Unsatisfiable and degenerate systems recognised by a shared point."""
    z = geo.point(S, d, "z")
    k = S.real("k")
    n = [F(i + 1) for i in range(d)]
    c = geo.lin(n, z)
    P = Polytope([[k - c] + n, [c] + [-a for a in n]])       # n.x >= c - k and n.x <= c
    S.check(Iff(bool(P.is_empty()), k < 0), "slab is empty iff its width is negative")
    S.check(Iff(bool(P.is_empty(include_boundary=False)), k <= 0), "slab has an interior iff its width is positive")


OPS = ("incl", "excl", "vertices", "copy", "canon", "full", "subset", "centroid", "edges", "contains", "minus")


def h_history(S, a, n):
    """Any n earlier questions, then the two emptiness questions in either order."""
    import copy
    if a == "thin3":        # unit square times an interval of arbitrary (possibly zero or negative) length
        lo, hi = S.reals("lo hi")
        d, E = 3, []
        I = [[F(0), F(1), F(0), F(0)], [F(1), F(-1), F(0), F(0)], [F(0), F(0), F(1), F(0)], [F(1), F(0), F(-1), F(0)],
             [-lo, F(0), F(0), F(1)], [hi, F(0), F(0), F(-1)]]
        P = geo.poly(I, E)
    elif a == "thin2":
        lo, hi = S.reals("lo hi")
        d, E = 2, []
        I = [[F(0), F(1), F(0)], [F(1), F(-1), F(0)], [F(3), F(-1), F(-1)], [-lo, F(1), F(1)], [hi, F(-1), F(-1)]]
        P = geo.poly(I, E)
    else:
        P, d, I, E = geo.make(S, "a", a)
    full = geo.nonempty(I, E, d)
    inner = False if E else geo.nonempty_strict(I, E, d)
    bounded = a in ("seg", "seg3", "box", "tri", "line", "thin2", "thin3", "pt1", "pt", "flat3")
    ops = [o for o in OPS if bounded or o not in ("vertices", "centroid", "edges")]
    some = None
    for i in range(n):
        o = S.choice(f"op{i}", ops)
        if o == "incl":
            P.is_empty()
        elif o == "excl":
            P.is_empty(include_boundary=False)
        elif o == "copy":
            P = copy.copy(P)
        elif o == "canon":
            P.canonicalize()
        elif o == "full":
            P.is_full_dim()
        elif o == "subset":
            P.is_subset_of(Polytope([[F(1)] + [F(1)] * d]))
        elif o == "contains":
            P.contains([F(0)] * d)
        elif o == "minus":
            P.set_minus(Polytope([[F(1)] + [F(1)] * d]))
        elif o in ("vertices", "centroid", "edges"):
            some = bool(full) if some is None else some
            if o == "vertices":
                P.get_vertices()
            elif some and o == "centroid":
                P.get_centroid()
            elif some and bool(inner):
                P.get_edges()
    if S.boolean("order"):
        e1, e2 = bool(P.is_empty()), bool(P.is_empty(include_boundary=False))
    else:
        e2, e1 = bool(P.is_empty(include_boundary=False)), bool(P.is_empty())
    S.check(Iff(e1, Not(full)), "empty iff no point satisfies the constraints, after any questions")
    S.check(Iff(e2, Not(inner)), "empty without boundary iff no interior point, after any questions")


HARNESSES = {"history": h_history, "empty": h_empty, "copy": h_copy, "fulldim": h_fulldim, "arb": h_arb, "point": h_point}


def tasks(tier):
    o = [{"h": "empty", "cfg": {"a": a}, "budget": 300} for a in geo.T if tier != "quick" or a not in ("box3", "flat3")]
    o += [{"h": "copy", "cfg": {"a": a}, "budget": 300} for a in ("seg", "box", "tri", "wedge", "line")]
    o += [{"h": "fulldim", "cfg": {"a": a}, "budget": 300} for a in ("seg", "seg3", "box", "tri", "pent", "line", "strip", "simp3")]
    o += [{"h": "arb", "cfg": {"d": d, "n": n}, "budget": 300} for d, n in ((1, 1), (1, 2), (2, 1))]
    if tier != "quick":
        o += [{"h": "arb", "cfg": {"d": 2, "n": 2}, "budget": 1200}]
    o += [{"h": "point", "cfg": {"d": d}} for d in (1, 2, 3)]
    o += [{"h": "history", "cfg": {"a": a, "n": n}, "budget": 350, "weight": w} for a, n, w in (
        ("seg", 2, 3), ("thin2", 1, 3), ("thin3", 1, 4), ("wedge", 2, 2), ("pt1", 2, 1), ("tri", 1, 2))]
    if tier != "quick":
        o += [{"h": "history", "cfg": {"a": a, "n": 2}, "budget": 1500, "weight": 8} for a in ("thin2", "thin3", "box", "tri", "line")]
    return o
