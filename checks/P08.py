"""Flattening a region into polytopes: same set, disjoint pieces, recorded dependencies."""
import itertools
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo, reg
from polytope import Polytope
from region import Region, Region_Type
from helpers.region_helper import Region_Helper

BOUNDS = ("intersections of up to 3 disjoint unions of up to 3 polytopes each, dimension 1-2, arbitrary offsets "
          "(with concrete normals) or arbitrary cut positions; an arbitrary query point")
ASSUMPTIONS = ["boundaries are ignored, as documented: points are taken off the bounding hyperplanes for the "
               "covering direction"]


def flat(R, deps):
    D = R.as_disjoint_union(track_dependencies=deps)
    assert D.region_type == Region_Type.DISJOINT_UNION
    return D, [c.child for c in D.child]


def verdict(S, R, m, polys, deps, disjoint=False):
    d = polys[0][1]
    for i, (P, *_r) in enumerate(polys):
        P.label = f"L{i}"
    D, pieces = flat(R, deps)
    x = geo.point(S, d)
    S.check(all(isinstance(p, Polytope) for p in pieces), "the pieces are polytopes")
    for p in pieces:
        S.check(Implies(geo.mat_in(p, x), m(x)), "every piece lies in the region")
    off = And([geo.row_at(r, x) != 0 for _, _, I, E in polys for r in I + E])
    S.check(Implies(And(off, m(x)), Or([geo.mat_in(p, x) for p in pieces])), "every point of the region is in a piece")
    if disjoint:
        for p, q in itertools.combinations(pieces, 2):
            S.check(Not(And(off, geo.mat_in(p, x), geo.mat_in(q, x))), "the pieces are disjoint")
    if deps:
        labels = {f"L{i}": polys[i] for i in range(len(polys))}
        for p in pieces:
            S.check(isinstance(p.dependencies, set) and p.dependencies <= set(labels), "dependencies are labels of the region's polytopes")
            S.check(len(p.dependencies) > 0, "a piece depends on something")
        S.check(all(not hasattr(P, "dependencies") for P, *_r in polys), "the original polytopes are not marked")
    S.check(all(P.label == f"L{i}" for i, (P, *_r) in enumerate(polys)), "labels unchanged")
    S.check(reg.kept(polys), "operands unchanged")
    S.observe("n", len(pieces))
    return pieces


def h_tree(S, t, deps=False, hist=None):
    """hist: an earlier question is put to this polytope of the tree."""
    R, m, polys = reg.build(S, t)
    if hist is not None:
        geo.ask(S, *polys[hist], True)
    verdict(S, R, m, polys, deps)


def cells(S, tag, normal, n, within):
    """n slabs between arbitrary increasing cuts of n.x, inside a fixed box, as a disjoint union."""
    nn = [F(a) for a in normal]
    c = [S.real(f"{tag}{i}") for i in range(n + 1)]
    for i in range(n):
        S.assume(c[i] < c[i + 1])
    polys = []
    for i in range(n):
        I = [list(r) for r in within] + [[-c[i]] + nn, [c[i + 1]] + [-a for a in nn]]
        polys.append((Polytope([list(r) for r in I]), len(nn), I, []))
    return polys


BOX = {1: [], 2: [[F(0), F(1), F(0)], [F(2), F(-1), F(0)], [F(0), F(0), F(1)], [F(2), F(0), F(-1)]]}


def h_cells(S, normals, ns, deps=False):
    d = len(normals[0])
    groups = [cells(S, f"c{k}_", nn, n, BOX[d]) for k, (nn, n) in enumerate(zip(normals, ns))]
    R = Region.intersect([Region.disjoint_union([Region.from_polytope(p[0]) for p in g]) for g in groups])
    m = lambda x: And([Or([geo.inside(I, E, x) for _, _, I, E in g]) for g in groups])
    verdict(S, R, m, [p for g in groups for p in g], deps, disjoint=True)


def h_deps(S, n):
    """Each piece of an intersection of convex bounds lies in every bound it does not name as well."""
    d = 1
    polys = []
    for i in range(n):
        l, u = S.reals(f"l{i} u{i}")
        S.assume(l < u)
        I = [[-l, F(1)], [u, F(-1)]]
        polys.append((Polytope([list(r) for r in I]), 1, I, []))
    R = Region.intersect([Region.from_polytope(p[0]) for p in polys])
    m = lambda x: And([geo.inside(I, E, x) for _, _, I, E in polys])
    pieces = verdict(S, R, m, polys, True)
    x = geo.point(S, 1, "w")
    for p in pieces:
        named = [polys[int(l[1:])] for l in p.dependencies]
        S.check(Iff(And([geo.inside(I, E, x) for _, _, I, E in named]), geo.mat_in(p, x)), "the named bounds generate the piece")


def h_merge(S, cuts, two=False):
    """An arbitrary interval against fixed neighbouring cells (of one or two bounds), which merge again: for every bound a piece names, the
    named polytopes of that bound cover the piece."""
    l, u = S.reals("l u")
    S.assume(l < u)
    polys = [(Polytope([[-l, F(1)], [u, F(-1)]]), 1, [[-l, F(1)], [u, F(-1)]], [])]
    groups = [[0]]
    for cs in ([cuts, [cuts[0] - 1, cuts[1] + 1, cuts[-1] + 1]] if two else [cuts]):
        g = []
        for a, b in zip(cs, cs[1:]):
            I = [[F(-a), F(1)], [F(b), F(-1)]]
            g.append(len(polys))
            polys.append((Polytope([list(r) for r in I]), 1, I, []))
        groups.append(g)
    R = Region.intersect([Region.disjoint_union([Region.from_polytope(polys[i][0]) for i in g]) for g in groups])
    m = lambda x: And([Or([geo.inside(polys[i][2], [], x) for i in g]) for g in groups])
    pieces = verdict(S, R, m, polys, True, disjoint=True)
    x = geo.point(S, 1, "w")
    for p in pieces:
        for g in groups:
            named = [i for i in g if f"L{i}" in p.dependencies]
            if named:
                S.check(Implies(geo.mat_in(p, x), Or([geo.inside(polys[i][2], [], x) for i in named])), "the named polytopes of each named bound cover the piece")


def h_simplify(S, n, deps):
    """Merging a list of intervals (Region_Helper) keeps the union and the dependencies."""
    polys = []
    for i in range(n):
        l, u = S.reals(f"l{i} u{i}")
        S.assume(l < u)
        I = [[-l, F(1)], [u, F(-1)]]
        P = Polytope([list(r) for r in I])
        P.dependencies = {i}
        polys.append((P, 1, I, []))
    out = Region_Helper.simplify_union_of_polys([p[0] for p in polys], Polytope.try_union, deps)
    x = geo.point(S, 1)
    S.check(Iff(Or([geo.mat_in(p, x) for p in out]), Or([geo.inside(I, E, x) for _, _, I, E in polys])), "merging keeps the union")
    mem = [geo.mat_in(p, x) for p in out]
    for i in range(len(out)):
        for j in range(i):
            S.check(Not(And(mem[i], mem[j])), "merged as far as possible")
    if deps:
        for p in out:
            S.check(Iff(geo.mat_in(p, x), Or([geo.inside(polys[i][2], [], x) for i in p.dependencies])), "the merged piece is the union of its dependencies")


def h_shadow(S, dims):
    """A projection of disjoint pieces may overlap: flattening it is refused, or gives disjoint pieces with the same set."""
    a, b = S.reals("a b")
    c = [S.reals(f"l{i} u{i}") for i in range(2)]
    S.assume(And(a < b, c[0][0] < c[0][1], c[1][0] < c[1][1], c[0][1] <= c[1][0]))
    rows = [[[F(0), F(1), F(0)], [F(2), F(-1), F(0)]], [[-a, F(1), F(0)], [b, F(-1), F(0)]]]
    I = [rows[i] + [[-c[i][0], F(0), F(1)], [c[i][1], F(0), F(-1)]] for i in range(2)]
    R = Region.disjoint_union([Region.from_polytope(Polytope([list(r) for r in J])) for J in I])
    Q = R.project(set(dims))
    x = geo.point(S, 1, "w")[0]
    ends = [(F(0), F(2)), (a, b)] if dims == [0] else [tuple(k) for k in c]
    inside = Or([And(l <= x, x <= u) for l, u in ends])
    off = And([x != e for k in ends for e in k])
    try:
        D, pieces = flat(Q, False)
    except NotImplementedError:
        S.cover("refused")
        return
    m = [geo.mat_in(p, [x]) for p in pieces]
    S.check(Implies(off, Iff(Or(m), inside)), "the pieces make up the projection")
    S.check(And([Implies(off, Not(And(u, w))) for i, u in enumerate(m) for w in m[:i]]), "the pieces are disjoint")
    S.cover("flattened")


HARNESSES = {"shadow": h_shadow, "tree": h_tree, "cells": h_cells, "deps": h_deps, "simplify": h_simplify, "merge": h_merge}


def tasks(tier):
    o = [{"h": "tree", "cfg": {"t": t, "deps": dp}, "budget": 400, "weight": w} for t, dp, w in (
        ("tri", True, 1), (["I", "seg", "seg"], True, 1), (["I", "tri", "half"], True, 1), (["D", "tri", "box"], True, 1),
        (["I", ["D", "seg", "seg"], "seg"], False, 3), (["I", "tri", "tri2"], False, 3), (["I", ["D", "ray", "seg"], "ray"], True, 3),
        (["D", ["I", "seg", "ray"], "seg"], True, 2), (["I", ["D", "half", "wedge"], "half"], False, 4),
        (["I", "ray", ["D", "ray", ["I", "ray", "seg"]]], False, 8))]
    o += [{"h": "cells", "cfg": {"normals": nn, "ns": ns, "deps": dp}, "budget": 400, "weight": w} for nn, ns, dp, w in (
        ([[1], [1]], [2, 1], True, 3), ([[1], [1]], [2, 2], True, 8), ([[1, 0], [0, 1]], [1, 1], True, 3), ([[1, 0], [1, 1]], [1, 1], False, 5))]
    o += [{"h": "tree", "cfg": {"t": t, "deps": True, "hist": h}, "budget": 400, "weight": 4} for t, h in (
        (["I", "seg", "ray"], 0), (["I", ["D", "seg", "ray"], "ray"], 0), (["D", "tri", "half"], 0), (["I", "tri", "half"], 0))]
    o += [{"h": "deps", "cfg": {"n": n}, "budget": 400, "weight": n} for n in (1, 2, 3)]
    o += [{"h": "merge", "cfg": {"cuts": c, "two": t}, "budget": 400, "weight": 2} for c, t in (([0, 1, 2, 3], False), ([0, 1, 2, 4, 5], False), ([0, 2, 3], True))]
    o += [{"h": "simplify", "cfg": {"n": n, "deps": dp}, "budget": 400, "weight": n * 2} for n, dp in ((2, True), (2, False), (3, True))]
    o += [{"h": "shadow", "cfg": {"dims": D}, "budget": 300} for D in ([0], [1])]
    if tier != "quick":
        o += [{"h": "cells", "cfg": {"normals": nn, "ns": ns, "deps": True}, "budget": 1800, "weight": 9} for nn, ns in (
            ([[1, 0], [0, 1]], [2, 1]), ([[1], [1]], [3, 2]), ([[1, 0], [1, 1]], [2, 1]))]
        o += [{"h": "tree", "cfg": {"t": t, "deps": True}, "budget": 1800, "weight": 9} for t in (
            ["I", ["D", "seg", "seg"], ["D", "seg", "ray"]], ["I", ["D", "tri", "half"], "tri2"])]
        o += [{"h": "deps", "cfg": {"n": 4}, "budget": 1500}]
    return o
