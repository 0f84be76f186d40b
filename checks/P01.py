"""Polytope construction and transformation keep exactly the described point set."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from checks.geo import inside
from polytope import Polytope, Hyperplane, Constraint

BOUNDS = ("dimensions 1-3; the row-wise operations (membership, scaling, substitution, lifting, boxes) take "
          "arbitrary rational matrices of up to 3 inequality and 1 equality rows; intersections use the "
          "templates' concrete normals with arbitrary offsets; one arbitrary point")
ASSUMPTIONS = ["a polytope has at least one constraint row that is not identically zero"]


def arb(S, d, ni, ne, tag="a"):
    """Arbitrary rows; each normal is non-zero."""
    rows = []
    for i in range(ni + ne):
        r = [S.real(f"{tag}{i}_{j}") for j in range(d + 1)]
        S.assume(Or([c != 0 for c in r[1:]]))
        rows.append(r)
    return rows[:ni], rows[ni:]


def says(S, P, x, want, label):
    c = bool(P.contains(x))
    S.check(Iff(c, want), label)
    S.cover("in", c)
    S.cover("out", not c)
    return c


def h_contains(S, d, ni, ne):
    I, E = arb(S, d, ni, ne)
    P = geo.poly(I, E)
    x = geo.point(S, d)
    c = says(S, P, x, inside(I, E, x), "contains iff every constraint holds")
    S.check(P.dimension() == d, "dimension")
    S.check(P.num_constraints() == ni + ne, "constraint count")
    cons = P.get_constraints()
    S.check(Iff(c, And([k.satisfies(x) for k in cons])), "constraint objects describe the same set")
    S.observe("c", c)


def h_badpoint(S, d):
    I, E = arb(S, d, 2, 0)
    P = geo.poly(I, E)
    try:
        P.contains([F(0)] * (d + 1))
    except ValueError:
        S.cover("rejected")
        return
    S.fail("a point of the wrong dimension is rejected")


def h_scale(S, d, ni, ne, i, extra):
    I, E = arb(S, d, ni, ne)
    k = S.real("k")
    S.assume(k != 0)
    P = geo.poly(I, E)
    add = [[S.real(f"e{j}") for j in range(d + 1)]] if extra else []
    if extra:
        S.assume(Or([c != 0 for c in add[0]]))
    Q = P.scale(i + 1, k, [list(r) for r in add])
    x = geo.point(S, d)
    y = list(x)
    y[i] = x[i] / k
    says(S, Q, x, And(inside(I, E, y), inside(add, [], x)), "scaled set")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def h_scale_all(S, d, ni, ne):
    I, E = arb(S, d, ni, ne)
    ks = [S.real(f"k{i}") for i in range(d)]
    S.assume(And([k != 0 for k in ks]))
    P = geo.poly(I, E)
    Q = P.scale_all(list(ks))
    x = geo.point(S, d)
    says(S, Q, x, inside(I, E, [a / k for a, k in zip(x, ks)]), "scaled set")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def h_scale_int(S, ks):
    """Integer factors and integer rows stay exact."""
    b = geo.offsets(S, "b", 3)
    I = [[b[0], 1, 0], [b[1], 1, 1], [b[2], -2, -1]]
    P = geo.poly(I, [])
    Q = P.scale_all([int(k) for k in ks])
    x = geo.point(S, 2)
    says(S, Q, x, inside(I, [], [a / F(k) for a, k in zip(x, ks)]), "scaled set with integer factors")


def h_scale_int1(S, k):
    b = geo.offsets(S, "b", 3)
    I = [[b[0], 1, 0], [b[1], 1, 1], [b[2], -2, -1]]
    P = geo.poly(I, [])
    Q = P.scale(1, int(k), [])
    x = geo.point(S, 2)
    says(S, Q, x, inside(I, [], [x[0] / F(k), x[1]]), "scaled set with an integer factor")


def h_substitute(S, d, ni, ne, at):
    I, E = arb(S, d, ni, ne)
    vals = {i: S.real(f"v{i}") for i in at}
    P = geo.poly(I, E)
    Q = P.substitute(vals)
    x = geo.point(S, d - len(at))
    full, k = [], 0
    for i in range(d):
        if i in vals:
            full.append(vals[i])
        else:
            full.append(x[k])
            k += 1
    says(S, Q, x, inside(I, E, full), "substituted set")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def h_lift(S, d, ni, ne, var):
    I, E = arb(S, d, ni, ne)
    P = geo.poly(I, E)
    lims = {}
    spec = []
    for j, v in enumerate(var):
        if v is None:
            lims[j] = (S.real(f"l{j}"), S.real(f"u{j}"))
            spec.append(lims[j])
        else:
            spec.append(v)
    Q = P.lift(spec)
    x = geo.point(S, len(var))
    y = [None] * d
    for j, v in enumerate(var):
        if v is not None:
            y[v] = x[j]
    want = And(inside(I, E, y), And([And(x[j] >= l, x[j] <= u) for j, (l, u) in lims.items()]))
    says(S, Q, x, want, "lifted set")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def h_rect(S, d):
    lims = [(S.real(f"l{i}"), S.real(f"u{i}")) for i in range(d)]
    P = Polytope.rect(*lims)
    x = geo.point(S, d)
    says(S, P, x, And([And(x[i] >= l, x[i] <= u) for i, (l, u) in enumerate(lims)]), "the box")
    S.check(P.dimension() == d, "dimension")


def h_copy(S, d, ni, ne):
    import copy
    I, E = arb(S, d, ni, ne)
    P = geo.poly(I, E)
    Q = copy.copy(P)
    x = geo.point(S, d)
    says(S, Q, x, inside(I, E, x), "the copy is the same set")
    extra = [S.real(f"z{j}") for j in range(d + 1)]
    Q.mat.extend([extra], linear=False)
    S.check(geo.unchanged(P, I, E), "changing the copy leaves the original alone")


def h_meet(S, names, canon, hist=False):
    parts = [geo.make(S, "abc"[i], n) for i, n in enumerate(names)]
    d = parts[0][1]
    if hist:
        parts[0] = (geo.ask(S, *parts[0], names[0] in geo.BOUNDED),) + parts[0][1:]
    P = Polytope.intersection([p[0] for p in parts], canonicalize=canon)
    x = geo.point(S, d)
    says(S, P, x, And([inside(p[2], p[3], x) for p in parts]), "intersection is the common set")
    for p in parts:
        S.check(geo.unchanged(p[0], p[2], p[3]), "operands unchanged")


def h_intersect(S, a, b):
    P, d, I, E = geo.make(S, "a", a)
    Q, _, J, G = geo.make(S, "b", b)
    R = P.intersect(Q)
    x = geo.point(S, d)
    says(S, R, x, And(inside(I, E, x), inside(J, G, x)), "intersection is the common set")
    S.check(And(geo.unchanged(P, I, E), geo.unchanged(Q, J, G)), "operands unchanged")


def h_self(S, a):
    """The same object as both operands, twice."""
    P, d, I, E = geo.make(S, "a", a)
    x = geo.point(S, d)
    want = inside(I, E, x)
    says(S, P.intersect(P), x, want, "a polytope meets itself in itself")
    for c in (True, False):
        says(S, Polytope.intersection([P, P], canonicalize=c), x, want, "a polytope meets itself in itself")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def h_canon(S, a):
    """Canonicalising keeps the set."""
    d, I, E = geo.rows(S, "a", a)
    x = geo.point(S, d)
    if E:
        P = geo.poly(I, E)
        P.canonicalize()
    else:
        P = Polytope([list(r) for r in I], canonicalize=True)
    says(S, P, x, inside(I, E, x), "canonical form is the same set")


def h_plane(S, d):
    a = [S.real(f"a{i}") for i in range(d + 1)]
    x = geo.point(S, d)
    v = geo.row_at(a, x)
    S.check(Iff(bool(Hyperplane(a).contains(x)), v == 0), "hyperplane membership")
    S.check(Iff(bool(Constraint(a, Constraint.GREATER_EQUALS).satisfies(x)), v >= 0), ">= constraint")
    S.check(Iff(bool(Constraint(a, Constraint.GREATER).satisfies(x)), v > 0), "> constraint")
    S.check(Iff(bool(Constraint(a, Constraint.EQUALS).satisfies(x)), v == 0), "= constraint")
    b = [S.real(f"b{i}") for i in range(d + 1)]
    e = bool(Constraint(a) == Constraint(b))
    S.check(Iff(e, geo.same(a, b)), "constraint equality")
    S.check(not (Constraint(a) == Constraint(a, Constraint.EQUALS)), "types distinguish constraints")


def h_after(S, a, op):
    """A question about a polytope, then an operation on it: the result does not remember the question."""
    P, d, I, E = geo.make(S, "a", a)
    x = geo.point(S, d)
    P = geo.ask(S, P, d, I, E, a in geo.BOUNDED)
    if op == "scale":
        k = S.real("k")
        S.assume(k != 0)
        Q = P.scale(1, k, [])
        want = lambda z: inside(I, E, [z[0] / k] + z[1:])
    elif op == "scale_all":
        Q = P.scale_all([F(-2)] + [F(3)] * (d - 1))
        want = lambda z: inside(I, E, [z[0] / -2] + [c / 3 for c in z[1:]])
    elif op == "lift":
        l, u = S.reals("l u")
        Q = P.lift([(l, u)] + list(range(d)))
        x = [S.real("z")] + x
        want = lambda z: And(inside(I, E, z[1:]), l <= z[0], z[0] <= u)
    elif op == "substitute":
        v = S.real("v")
        Q = P.substitute({0: v})
        x = x[1:]
        want = lambda z: inside(I, E, [v] + z)
    elif op == "canon":
        P.canonicalize()
        Q, want = P, lambda z: inside(I, E, z)
    says(S, Q, x, want(x), "the set after " + op)
    V = Q.vertices
    if V is not None:
        S.check(And([want(list(v)) for v in V]), "remembered vertices belong to the set")
    if op != "canon":
        S.check(geo.unchanged(P, I, E), "operand unchanged")


HARNESSES = {"self": h_self, "after": h_after, "contains": h_contains, "badpoint": h_badpoint, "scale": h_scale, "scale_all": h_scale_all,
             "scale_int": h_scale_int, "scale_int1": h_scale_int1, "substitute": h_substitute, "lift": h_lift,
             "rect": h_rect, "copy": h_copy, "meet": h_meet, "intersect": h_intersect, "canon": h_canon,
             "plane": h_plane}


def tasks(tier):
    o = []
    shapes = [(1, 2, 0), (2, 2, 0), (2, 1, 1), (2, 0, 1), (3, 2, 1)]
    o += [{"h": "contains", "cfg": {"d": d, "ni": a, "ne": b}} for d, a, b in shapes]
    o += [{"h": "copy", "cfg": {"d": d, "ni": a, "ne": b}} for d, a, b in shapes]
    o += [{"h": "badpoint", "cfg": {"d": d}} for d in (1, 2)]
    o += [{"h": "scale", "cfg": {"d": d, "ni": a, "ne": b, "i": i, "extra": x}}
          for d, a, b, i, x in ((1, 2, 0, 0, 0), (2, 1, 0, 0, 1), (2, 2, 0, 1, 0), (2, 1, 1, 1, 0), (2, 0, 1, 0, 0), (3, 1, 0, 1, 0)) + (((3, 1, 1, 2, 0), (2, 2, 0, 0, 1)) if tier != "quick" else ())]
    o += [{"h": "scale_all", "cfg": {"d": d, "ni": a, "ne": b}} for d, a, b in ((1, 2, 0), (2, 2, 0), (2, 1, 1), (2, 0, 1), (3, 1, 1))]
    o += [{"h": "scale_int", "cfg": {"ks": k}} for k in ((3, 7), (-3, 2))] + [{"h": "scale_int1", "cfg": {"k": 3}}]
    o += [{"h": "substitute", "cfg": {"d": d, "ni": a, "ne": b, "at": at}}
          for d, a, b, at in ((2, 2, 0, [0]), (2, 1, 1, [1]), (3, 2, 1, [0, 2]), (3, 2, 0, [1]), (3, 0, 1, [2]))]
    o += [{"h": "lift", "cfg": {"d": d, "ni": a, "ne": b, "var": v}}
          for d, a, b, v in ((1, 2, 0, [0, None]), (2, 1, 1, [1, 0]), (2, 2, 0, [None, 1, 0]), (2, 2, 0, [0, None, 1]),
                             (1, 1, 1, [None, None, 0]), (2, 1, 1, [0, None, 1]))]
    o += [{"h": "rect", "cfg": {"d": d}} for d in (1, 2, 3)]
    o += [{"h": "plane", "cfg": {"d": d}} for d in (1, 2)]
    o += [{"h": "meet", "cfg": {"names": n, "canon": c}} for c in (True, False)
          for n in (["box"], ["tri", "tri2"], ["box", "half", "wedge"], ["seg", "seg3"], ["half", "lineq"], ["box", "line"])]
    o += [{"h": "intersect", "cfg": {"a": a, "b": b}} for a, b in (("box", "tri2"), ("seg", "ray"), ("line", "box"), ("lineq", "half"))]
    o += [{"h": "meet", "cfg": {"names": n, "canon": True, "hist": True}, "budget": 350, "weight": 2} for n in (["seg", "ray"], ["tri", "half"])]
    o += [{"h": "after", "cfg": {"a": a, "op": op}, "budget": 350} for a, op in (
        ("seg", "scale"), ("tri", "scale_all"), ("tri", "lift"), ("tri", "substitute"), ("tri", "canon"), ("line", "scale_all"), ("seg", "lift"))]
    o += [{"h": "canon", "cfg": {"a": a}} for a in ("seg", "seg3", "box", "tri", "pent", "line", "wedge", "pt")]
    o += [{"h": "self", "cfg": {"a": a}, "budget": 300} for a in ("seg", "tri", "line", "half")]
    if tier != "quick":
        o += [{"h": "after", "cfg": {"a": a, "op": "scale"}, "budget": 1200, "weight": 3} for a in ("tri", "line")]
        o += [{"h": "intersect", "cfg": {"a": a, "b": b}, "budget": 600} for a, b in (("box", "box"), ("simp3", "slab3"), ("flat3", "simp3"))]
        o += [{"h": "canon", "cfg": {"a": a}, "budget": 600} for a in ("box3", "simp3", "slab3", "flat3")]
    return o
