"""Vertices, edges, projection, vertex construction, centroid, equality of bounded polytopes."""
import itertools
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from checks.P03 import outside_rows
from polytope import Polytope, Hyperplane

BOUNDS = ("bounded templates in dimension 1-3 with arbitrary offsets (non-empty, except where stated); vertex "
          "construction from up to 3 arbitrary points on a line or up to 4 points in the plane (two of them with "
          "arbitrary coordinates); projections onto one or two coordinates; an arbitrary query point")
ASSUMPTIONS = ["projection, edges and centroids: bounded polytopes (documented precondition)"]


def solve(rows, d):
    """Solution of d rows r0 + n.x = 0 with concrete normals, or None if singular."""
    M = [[F(a) for a in r[1:]] for r in rows]
    b = [-r[0] for r in rows]
    n = len(M)
    for c in range(d):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return None
        M[c], M[p], b[c], b[p] = M[p], M[c], b[p], b[c]
        for i in range(n):
            if i != c and M[i][c] != 0:
                k = M[i][c] / M[c][c]
                M[i] = [u - k * v for u, v in zip(M[i], M[c])]
                b[i] = b[i] - b[c] * k
    return [b[i] * (1 / M[i][i]) for i in range(d)]


def corners(I, E, d):
    out = []
    k = d - len(E)
    for rows in itertools.combinations(I, k):
        p = solve(list(E) + list(rows), d)
        if p is not None:
            out.append((p, list(E) + list(rows)))
    return out


def h_vertices(S, a, canon=False, hist=False):
    P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty(I, E, d))
    if hist:
        P = geo.ask(S, P, d, I, E, True)
    if canon:
        P.canonicalize()
    V = [list(v) for v in P.get_vertices()]
    for v in V:
        S.check(len(v) == d, "dimension of a vertex")
        S.check(geo.inside(I, E, v), "every vertex lies in the polytope")
    for i in range(len(V)):
        for j in range(i):
            S.check(Not(geo.same(V[i], V[j])), "vertices are distinct")
    C = corners(I, E, d)
    for v in V:
        S.check(Or([geo.same(v, p) for p, _ in C]), "every vertex is a corner")
    for p, _ in C:
        S.check(Implies(geo.inside(I, E, p), Or([geo.same(v, p) for v in V])), "every corner is reported")
    c = P.get_centroid()
    for i in range(d):
        S.check(c[i] * len(V) == sum((v[i] for v in V), F(0)), "centroid is the mean of the vertices")
    S.check(geo.inside(I, E, c), "centroid lies in the polytope")
    S.observe("n", len(V))


PENT = [[F(0), F(1), F(0)], [F(0), F(0), F(1)], [F(2), F(-1), F(0)], [F(2), F(0), F(-1)], [F(3), F(-1), F(-1)]]


def h_edges(S, a, first=None):
    """first: a row with this normal and arbitrary offset precedes the rows of a fixed pentagon, and the vertices
    are asked for before the edges."""
    if first:
        d, I, E = 2, [[S.real("t")] + [F(x) for x in first]] + [list(r) for r in PENT], []
        P = Polytope([list(r) for r in I])
    else:
        P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty_strict(I, E, d))
    if first:
        S.check(And([geo.inside(I, E, v) for v in P.get_vertices()]), "vertices lie in the polytope")
    edges = [(list(u), list(v)) for u, v in P.get_edges()]
    V = [list(v) for v in P.get_vertices()]

    def shared(u, v):
        """u, v both tight on d-1 independent rows (concrete normals)."""
        out = []
        for rows in itertools.combinations(I, d - 1):
            if geo_rank([r[1:] for r in rows]) == d - 1:
                out.append(And([geo.row_at(r, w) == 0 for r in rows for w in (u, v)]))
        return Or(out)
    for u, v in edges:
        S.check(And(geo.inside(I, E, u), geo.inside(I, E, v)), "edges end at points of the polytope")
        S.check(And(Not(geo.same(u, v)), shared(u, v)), "an edge joins two vertices of a common face")
    for u, v in itertools.permutations(V, 2):
        S.check(Implies(shared(u, v), Or([And(geo.same(u, p), geo.same(v, q)) for p, q in edges])), "every edge is reported")
    S.check(And([geo.inside(I, E, v) for v in V]), "vertices lie in the polytope")


def geo_rank(rows):
    M = [[F(a) for a in r] for r in rows]
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            k = M[i][c] / M[r][c]
            M[i] = [u - k * v for u, v in zip(M[i], M[r])]
        r += 1
    return r


def h_project(S, a, dims, hist=False):
    P, d, I, E = geo.make(S, "a", a)
    if hist:
        P = geo.ask(S, P, d, I, E, True)
    ok = geo.nonempty(I, E, d)
    R = P.project(set(dims))
    if R is None:
        S.check(Not(ok), "only an empty polytope has no projection")
        S.cover("empty")
        return
    S.check(ok, "an empty polytope has no projection")
    y = geo.point(S, len(dims), "y")
    S.check(R.dimension() == len(dims), "dimension of the projection")
    keep = sorted(dims)
    rest = [i for i in range(d) if i not in keep]

    def cut(r):
        return [r[0] + geo.lin([r[1 + i] for i in keep], y)] + [r[1 + i] for i in rest]
    want = geo.nonempty([cut(r) for r in I], [cut(r) for r in E], len(rest))
    S.check(Iff(geo.mat_in(R, y), want), "a point is in the projection iff some point lies above it")
    S.check(geo.unchanged(P, I, E), "operand unchanged")


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def h_hull1(S, n):
    v = S.reals([f"v{i}" for i in range(n)])
    P = Polytope.from_V_rep([[t] for t in v])
    x = S.real("x")
    S.check(Iff(geo.mat_in(P, [x]), And(Or([t <= x for t in v]), Or([x <= t for t in v]))), "hull of points on a line")
    S.check(P.dimension() == 1, "dimension")


def h_hull2(S, pts):
    V = []
    for i, p in enumerate(pts):
        V.append([S.real(f"v{i}x") if p[0] is None else F(p[0]), S.real(f"v{i}y") if p[1] is None else F(p[1])])
    tri = list(itertools.combinations(V, 3))
    S.assume(Or([cross(*t) != 0 for t in tri]))
    P = Polytope.from_V_rep([list(v) for v in V])
    x = geo.point(S, 2)
    mem = []
    for a, b, c in tri:
        s = [cross(a, b, x), cross(b, c, x), cross(c, a, x)]
        mem.append(And(cross(a, b, c) != 0, Or(And([t >= 0 for t in s]), And([t <= 0 for t in s]))))
    S.check(Iff(geo.mat_in(P, x), Or(mem)), "hull of points in the plane")
    for v in V:
        S.check(geo.mat_in(P, v), "the hull contains its points")


def h_hull0(S):
    S.check(Polytope.from_V_rep([]) is None, "no points: no polytope")
    S.cover("any")


def h_eq(S, a, b, hist=False):
    P, d, I, E = geo.make(S, "a", a)
    if hist:
        P = geo.ask(S, P, d, I, E, a in geo.BOUNDED)
    Q, _, J, G = geo.make(S, "b", b)
    r = bool(P == Q)
    ab = Or([geo.mixed(I, [t], E, d) for t in outside_rows(J, G)])
    ba = Or([geo.mixed(J, [t], G, d) for t in outside_rows(I, E)])
    S.check(Iff(r, And(Not(ab), Not(ba))), "equal iff the same point set")
    S.check(bool(Q == P) == r, "equality is symmetric")
    S.check(bool(P == P), "equality is reflexive")
    S.check(bool(P != Q) == (not r), "inequality is the negation")
    S.check(And(geo.unchanged(P, I, E), geo.unchanged(Q, J, G)), "operands unchanged")


def h_plane(S, a, n):
    P, d, I, E = geo.make(S, "a", a)
    S.assume(geo.nonempty(I, E, d))
    h = [S.real("h")] + [F(t) for t in n]
    r = bool(P.intersects(Hyperplane(h)))
    want = And(geo.mixed(I, [h], E, d), geo.mixed(I, [[-t for t in h]], E, d))
    S.check(Iff(r, want), "a plane intersects iff it has points strictly on both sides")
    S.check(r == bool(P.intersects(Hyperplane([-t for t in h]))), "orientation of the plane does not matter")


HARNESSES = {"vertices": h_vertices, "edges": h_edges, "project": h_project, "hull1": h_hull1, "hull2": h_hull2,
             "hull0": h_hull0, "eq": h_eq, "plane": h_plane}


def tasks(tier):
    o = [{"h": "vertices", "cfg": {"a": a}, "budget": 350} for a in ("seg", "seg3", "pt1", "box", "tri", "tri2", "pent", "pt", "box3", "simp3", "flat3")]
    o += [{"h": "vertices", "cfg": {"a": a, "canon": True}} for a in ("seg3", "box", "tri")]
    o += [{"h": "edges", "cfg": {"a": a}, "budget": 350} for a in ("box", "tri", "tri2", "pent", "box3", "simp3")]
    o += [{"h": "edges", "cfg": {"a": None, "first": n}, "budget": 350} for n in ((0, -1), (1, -1))]
    o += [{"h": "project", "cfg": {"a": a, "dims": D}, "budget": 350, "weight": 2}
          for a, D in (("box", [0]), ("box", [1]), ("tri", [0]), ("tri", [1]), ("tri2", [1]), ("pent", [0]), ("box", [0, 1]), ("tri", [0, 1]),
                       ("pt", [1]), ("simp3", [0]), ("simp3", [2]), ("simp3", [0, 2]), ("box3", [1]), ("flat3", [0]))]
    o += [{"h": "project", "cfg": {"a": a, "dims": D, "hist": True}, "budget": 350, "weight": 3} for a, D in (("tri", [0]), ("box", [1]))]
    o += [{"h": "vertices", "cfg": {"a": a, "hist": True}, "budget": 350, "weight": 3} for a in ("tri", "seg", "pt")]
    o += [{"h": "eq", "cfg": {"a": a, "b": b, "hist": True}, "budget": 350, "weight": 3} for a, b in (("seg", "seg"), ("half", "half"), ("tri", "half"))]
    o += [{"h": "hull1", "cfg": {"n": n}} for n in (1, 2, 3)]
    o += [{"h": "hull2", "cfg": {"pts": p}, "budget": 350, "weight": 3} for p in (
        [[0, 0], [3, 0], [None, None]], [[0, 0], [None, 1], [2, None]], [[0, 0], [2, 0], [0, 2], [None, None]])]
    o += [{"h": "hull0"}]
    o += [{"h": "eq", "cfg": {"a": a, "b": b}, "budget": 350, "weight": 2} for a, b in (
        ("seg", "seg"), ("seg", "seg3"), ("box", "box"), ("tri", "tri"), ("tri", "box"), ("ray", "ray"), ("ray", "seg"),
        ("wedge", "wedge"), ("pt", "pt"), ("wedge", "box"), ("half", "half"), ("strip", "strip"))]
    o += [{"h": "plane", "cfg": {"a": a, "n": n}, "budget": 350} for a, n in (("seg", [1]), ("box", [1, 2]), ("tri", [1, -1]), ("tri", [0, 1]), ("simp3", [1, 1, -1]))]
    if tier != "quick":
        o += [{"h": "eq", "cfg": {"a": a, "b": b, "hist": True}, "budget": 1500, "weight": 3} for a, b in (("seg", "seg3"), ("tri", "tri2"))]
        o += [{"h": "hull2", "cfg": {"pts": p}, "budget": 900, "weight": 3} for p in (
            [[0, 0], [None, None], [None, None]], [[0, 0], [2, None], [None, 2], [3, 3]])]
        o += [{"h": "project", "cfg": {"a": "box3", "dims": [0, 2]}, "budget": 900, "weight": 3}, {"h": "project", "cfg": {"a": "flat3", "dims": [0, 2]}, "budget": 900}]
        o += [{"h": "eq", "cfg": {"a": a, "b": b}, "budget": 900} for a, b in (("pent", "box"), ("pent", "tri"), ("flat3", "flat3"), ("simp3", "simp3"))]
    return o
