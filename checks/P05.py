"""Convex union of polytopes."""
import itertools
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from polytope import Polytope

BOUNDS = ("two or three polytopes: intervals with arbitrary end points; boxes in the "
          "plane with arbitrary corners; a triangle or box cut by one or two arbitrary parallel lines; unbounded slabs and half spaces with a common normal; refusals of "
          "arbitrary box pairs; collinear intervals and coplanar boxes inside an arbitrary coordinate hyperplane")
ASSUMPTIONS = ["documented precondition: non-empty polytopes"]


def same_set(S, R, members, x, label):
    S.check(Iff(geo.mat_in(R, x), Or(members)), label)


def h_seg(S, n, hist=False):
    """Intervals: the union is convex iff it has no gap."""
    ab = [(S.real(f"l{i}"), S.real(f"u{i}")) for i in range(n)]
    for l, u in ab:
        S.assume(l < u)
    P = [Polytope.rect(p) for p in ab]
    if hist:
        l, u = ab[0]
        P[0] = geo.ask(S, P[0], 1, [[-l, F(1)], [u, F(-1)]], [], True)
    R = Polytope.try_union(P)
    x, y, z = S.reals("x y z")
    mem = lambda t: Or([And(l <= t, t <= u) for l, u in ab])
    # no gap right of any interval's end unless nothing follows
    conv = And([Or(And([l2 <= u for l2, _ in ab]), Or([And(l2 <= u, u < u2) for l2, u2 in ab])) for _, u in ab])
    if R is None:
        S.check(Not(conv), "refused only if the union is not convex")
        S.cover("refused")
    else:
        S.check(conv, "accepted only if the union is convex")
        same_set(S, R, [mem(x)], [x], "the result is the union")
        S.cover("accepted")
    for p, (l, u) in zip(P, ab):
        S.check(geo.unchanged(p, [[-l, F(1)], [u, F(-1)]], []), "operands unchanged")
    S.observe("r", R is None)


def h_boxes(S, fix):
    """Two boxes in the plane, with closed-form convexity."""
    a = (F(0), F(2)), (F(0), F(1))
    b = tuple((S.real(f"l{i}"), S.real(f"u{i}")) for i in range(2))
    if fix == 1:        # same y-range
        b = (b[0], a[1])
    elif fix == 2:
        b = (a[0], b[1])
    elif fix == 3:      # one free corner
        b = ((F(1), b[0][1]), (b[1][0], F(1)))
    for l, u in b:
        S.assume(l < u)
    R = Polytope.try_union([Polytope.rect(*a), Polytope.rect(*b)])
    sub = lambda p, q: And([And(q[i][0] <= p[i][0], p[i][1] <= q[i][1]) for i in range(2)])
    def along(i):
        j = 1 - i
        return And(a[j][0] == b[j][0], a[j][1] == b[j][1], a[i][0] <= b[i][1], b[i][0] <= a[i][1])
    conv = Or(sub(a, b), sub(b, a), along(0), along(1))
    x = geo.point(S, 2)
    mem = lambda box: And([And(x[i] >= box[i][0], x[i] <= box[i][1]) for i in range(2)])
    if R is None:
        S.check(Not(conv), "refused only if the union is not convex")
        S.cover("refused")
    else:
        S.check(conv, "accepted only if the union is convex")
        same_set(S, R, [mem(a), mem(b)], x, "the result is the union")
        S.cover("accepted")


SHAPES = {
    "tri": [[F(0), F(1), F(0)], [F(0), F(0), F(1)], [F(1), F(-1), F(-1)]],
    "box": [[F(0), F(1), F(0)], [F(1), F(-1), F(0)], [F(0), F(0), F(1)], [F(1), F(0), F(-1)]],
    "kite": [[F(0), F(2), F(1)], [F(3), F(-1), F(0)], [F(2), F(1), F(-1)]],
}


def h_cut(S, shape, n, gap, hist=False):
    """A polygon cut along lines n.x = c (and, with gap, a strip removed)."""
    K = SHAPES[shape]
    n = [F(a) for a in n]
    c = S.real("c")
    g = S.real("g", lo=0) if gap else F(0)
    lo, hi = [-(c + g)] + n, [c] + [-a for a in n]
    A, B = K + [lo], K + [hi]
    S.assume(And(geo.nonempty_strict(A, [], 2), geo.nonempty_strict(B, [], 2)))
    PA = Polytope([list(r) for r in A])
    if hist:
        PA = geo.ask(S, PA, 2, A, [], True)
    R = Polytope.try_union([PA, Polytope([list(r) for r in B])])
    x = geo.point(S, 2)
    if gap and R is None:
        S.check(g > 0, "refused only if the union is not convex")
        S.cover("refused")
        return
    if R is None:
        S.fail("two halves of a convex polygon are joined")
        return
    S.check(g == 0, "accepted only if there is no gap")
    same_set(S, R, [geo.inside(A, [], x), geo.inside(B, [], x)], x, "the result is the union")


def h_three(S, shape, n):
    K = SHAPES[shape]
    n = [F(a) for a in n]
    c, e = S.reals("c e")
    S.assume(c < e)
    neg = [-a for a in n]
    parts = [K + [[c] + neg], K + [[-c] + n, [e] + neg], K + [[-e] + n]]
    for p in parts:
        S.assume(geo.nonempty_strict(p, [], 2))
    P = [Polytope([list(r) for r in p]) for p in parts]
    R = Polytope.try_union(P)
    x = geo.point(S, 2)
    if R is None:
        S.fail("three slices of a convex polygon are joined")
        return
    same_set(S, R, [geo.inside(K, [], x)], x, "the result is the union")
    # leaving out the middle slice is refused
    S.check(Polytope.try_union([P[0], P[2]]) is None, "separated slices are not joined")


def h_single(S):
    P, d, I, E = geo.make(S, "a", "tri")
    x = geo.point(S, d)
    R = Polytope.try_union([P])
    S.check(R is not None and Iff(geo.mat_in(R, x), geo.inside(I, E, x)), "the union of one polytope is itself")
    S.assume(geo.nonempty_strict(I, E, d))
    for R in (Polytope.try_union([P, P]), Polytope.try_union([P, P, P])):
        S.check(R is not None and Iff(geo.mat_in(R, x), geo.inside(I, E, x)), "the union of a polytope with itself is itself")
    S.check(geo.unchanged(P, I, E), "operand unchanged")
    S.check(Polytope.try_union([]) is None, "nothing to join")


def h_flat(S, dim):
    """Polytopes inside a common hyperplane (as equality row or as two inequalities)."""
    eqrow = S.boolean("eq")
    h = S.real("h")
    ab = [(S.real(f"l{i}"), S.real(f"u{i}")) for i in range(2)]
    for l, u in ab:
        S.assume(l < u)
    # boxes [0,2]x[0,1] and [l0,u0]x[l1,u1] (dim 3), or three collinear intervals (dim 2)
    if dim == 3:
        S.assume(And(ab[0][0] == 1, ab[1][1] == 1))
        boxes = [((F(0), F(2)), (F(0), F(1))), tuple(ab)]
    else:
        boxes = [((F(0), F(1)),), (ab[0],), (ab[1],)]
    P = []
    for b in boxes:
        rows = []
        k = len(b)
        for i, (l, u) in enumerate(b):
            rows += [[-l] + [F(int(i == j)) for j in range(k)] + [F(0)], [u] + [F(-int(i == j)) for j in range(k)] + [F(0)]]
        flat = [-h] + [F(0)] * k + [F(1)]
        P.append(geo.poly(rows, [flat]) if eqrow else Polytope(rows + [flat, [-t for t in flat]]))
    R = Polytope.try_union(P)
    x = geo.point(S, dim)
    mem = [And(x[-1] == h, And([And(l <= x[i], x[i] <= u) for i, (l, u) in enumerate(b)])) for b in boxes]
    if dim == 3:
        a, b = boxes
        sub = lambda p, q: And([And(q[i][0] <= p[i][0], p[i][1] <= q[i][1]) for i in range(2)])
        al = lambda i: And(a[1 - i][0] == b[1 - i][0], a[1 - i][1] == b[1 - i][1], a[i][0] <= b[i][1], b[i][0] <= a[i][1])
        conv = Or(sub(a, b), sub(b, a), al(0), al(1))
    else:
        B = [b[0] for b in boxes]
        conv = And([Or(And([l2 <= u for l2, _ in B]), Or([And(l2 <= u, u < u2) for l2, u2 in B])) for _, u in B])
    if R is None:
        S.check(Not(conv), "refused only if the union is not convex")
        S.cover("refused")
    else:
        S.check(conv, "accepted only if the union is convex")
        S.check(Iff(geo.mat_in(R, x), Or(mem)), "the result is the union")
        S.cover("accepted")


def h_unb(S, kinds, n):
    """Unbounded: each part is l <= n.x, n.x <= u or l <= n.x <= u, for the same n."""
    n = [F(a) for a in n]
    neg = [-a for a in n]
    P, lim = [], []
    for i, k in enumerate(kinds):
        l = S.real(f"l{i}") if k in ("up", "both") else None
        u = S.real(f"u{i}") if k in ("down", "both") else None
        if k == "both":
            S.assume(l < u)
        P.append(Polytope(([[-l] + n] if l is not None else []) + ([[u] + neg] if u is not None else [])))
        lim.append((l, u))
    R = Polytope.try_union(P)
    x = geo.point(S, len(n))
    v = geo.lin(n, x)
    mem = Or([And([] if l is None else [l <= v], [] if u is None else [v <= u]) for l, u in lim])
    le = lambda a, b: True if a is None else a <= b
    lt = lambda b, a: True if a is None else b < a
    conv = And([Or(And([False if u2 is None else u2 <= u for _, u2 in lim]),
                   Or([And(le(l2, u), lt(u, u2)) for l2, u2 in lim])) for _, u in lim if u is not None])
    if R is None:
        S.check(Not(conv), "refused only if the union is not convex")
        S.cover("refused")
    else:
        S.check(conv, "accepted only if the union is convex")
        S.check(R.dimension() == len(n), "dimension of the union")
        S.check(Iff(geo.mat_in(R, x), mem), "the result is the union")
        S.cover("accepted")


def h_mixed(S, dim, axis=0):
    """A box and a lower-dimensional polytope with an equality row (a point, or a segment across the plane)."""
    h = S.real("h")
    box = [[F(0)] + [F(int(j == i)) for j in range(dim)] for i in range(dim)] + [[F(1)] + [F(-int(j == i)) for j in range(dim)] for i in range(dim)]
    flat = [-h] + [F(int(j == axis)) for j in range(dim)]
    rows, sub = [], And(0 <= h, h <= 1)
    if dim == 2:
        l, u = S.reals("l u")
        S.assume(l < u)
        e = [F(int(j != axis)) for j in range(2)]
        rows = [[-l] + e, [u] + [-a for a in e]]
        sub = And(sub, 0 <= l, u <= 1)
    if S.boolean("neg"):
        flat = [-a for a in flat]
    parts = [Polytope([list(r) for r in box]), geo.poly(rows, [flat])]
    if S.boolean("swap"):
        parts.reverse()
    R = Polytope.try_union(parts)
    x = geo.point(S, dim)
    mem = Or(geo.inside(box, [], x), geo.inside(rows, [flat], x))
    if R is None:
        S.check(Not(sub), "refused only if the union is not convex")
        S.cover("refused")
    else:
        S.check(sub, "accepted only if the union is convex")
        S.check(Iff(geo.mat_in(R, x), mem), "the result is the union")
        S.cover("accepted")


HARNESSES = {"mixed": h_mixed, "unb": h_unb, "flat": h_flat, "seg": h_seg, "boxes": h_boxes, "cut": h_cut, "three": h_three, "single": h_single}


def tasks(tier):
    o = [{"h": "seg", "cfg": {"n": n}, "budget": 350, "weight": n} for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3))]
    o += [{"h": "boxes", "cfg": {"fix": f}, "budget": 350, "weight": 4} for f in (1, 2, 3)]
    o += [{"h": "cut", "cfg": {"shape": s, "n": n, "gap": g}, "budget": 350} for s, n in (("tri", (1, 0)), ("tri", (1, 2)), ("tri", (1, -1)), ("box", (0, 1)), ("kite", (1, 1)))
          for g in (False, True)]
    o += [{"h": "seg", "cfg": {"n": 2, "hist": True}, "budget": 350, "weight": 4}]
    o += [{"h": "cut", "cfg": {"shape": "tri", "n": (1, 2), "gap": True, "hist": True}, "budget": 350, "weight": 4}]
    o += [{"h": "three", "cfg": {"shape": s, "n": n}, "budget": 350} for s, n in (("tri", (1, 0)), ("box", (0, 1)))]
    o += [{"h": "single"}]
    o += [{"h": "unb", "cfg": {"kinds": k, "n": n}, "budget": 350} for k, n in (
        (["up", "up"], [1]), (["up", "down"], [1]), (["both", "up"], [1]), (["up", "both", "down"], [1]),
        (["up", "down"], [1, 2]), (["both", "both"], [1, -1]), (["down", "both"], [0, 1]))]
    o += [{"h": "mixed", "cfg": {"dim": d, "axis": a}, "budget": 350, "weight": 3} for d, a in ((1, 0), (2, 0), (2, 1))]
    o += [{"h": "flat", "cfg": {"dim": d}, "budget": 350, "weight": 5} for d in (2, 3)]
    if tier != "quick":
        o += [{"h": "boxes", "cfg": {"fix": 0}, "budget": 1500, "weight": 9}, {"h": "three", "cfg": {"shape": "kite", "n": (1, 1)}, "budget": 900}]
    return o
