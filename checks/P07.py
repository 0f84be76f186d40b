"""Regions: boolean combinations of polytopes mean the boolean combination of the sets."""
import copy
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo, reg
from checks.P03 import outside_rows
from polytope import Polytope
from region import Region, Region_Type

BOUNDS = ("region trees of depth <= 3 with up to 4 template polytopes (dimension 1-3, arbitrary offsets); "
          "scale factors, substituted values, lift limits and the query point are arbitrary rationals")
ASSUMPTIONS = ["projection: bounded children, and of an intersection it is documented to be the intersection of the projections"]


def h_contains(S, t):
    R, m, polys = reg.build(S, t)
    x = geo.point(S, polys[0][1])
    r = bool(R.contains(x))
    S.check(Iff(r, m(x)), "contains iff the boolean combination holds")
    S.check(bool(copy.copy(R).contains(x)) == r, "the copy is the same set")
    S.check(reg.kept(polys), "operands unchanged")
    S.observe("r", r)


def h_transform(S, t, op):
    R, m, polys = reg.build(S, t)
    d = polys[0][1]
    x = geo.point(S, d)
    if op == "scale":
        k = [S.real(f"k{i}") for i in range(d)]
        S.assume(And([c != 0 for c in k]))
        Q = R.scale_all(list(k))
        S.check(Iff(reg.mem(Q, [a * b for a, b in zip(k, x)]), m(x)), "scaled set")
    elif op == "sub":
        v = S.real("v")
        for i in range(d):
            Q = R.substitute({i: v})
            y = x[:i] + [v] + x[i + 1:]
            S.check(Iff(reg.mem(Q, x[:i] + x[i + 1:]), m(y)), "substituted set")
    elif op == "lift":
        l, u = S.reals("l u")
        z = S.real("z")
        for pos in range(d + 1):
            var = list(range(d))
            var.insert(pos, (l, u))
            Q = R.lift(var)
            S.check(Iff(reg.mem(Q, x[:pos] + [z] + x[pos:]), And(m(x), l <= z, z <= u)), "lifted set")
        Q = R.lift(list(reversed(range(d))))
        S.check(Iff(reg.mem(Q, list(reversed(x))), m(x)), "permuted coordinates")
    S.check(reg.kept(polys), "operands unchanged")


def h_project(S, t, dims):
    R, _, polys = reg.build(S, t)
    d = polys[0][1]
    if t[0] == "D":
        for i, p in enumerate(polys):
            for q in polys[:i]:
                S.assume(Not(geo.nonempty_strict(p[2] + q[2], [], d)))
    Q = R.project(set(dims))
    y = geo.point(S, len(dims), "y")
    keep = sorted(dims)
    rest = [i for i in range(d) if i not in keep]

    def shadow(p):
        cut = lambda r: [r[0] + geo.lin([r[1 + i] for i in keep], y)] + [r[1 + i] for i in rest]
        return geo.nonempty([cut(r) for r in p[2]], [cut(r) for r in p[3]], len(rest))

    def want(t, it):
        if isinstance(t, str):
            return shadow(next(it))
        k = [want(c, it) for c in t[1:]]
        return And(k) if t[0] == "I" else Or(k)
    w = want(t, iter(polys))
    if Q is None:
        S.check(Not(w), "only an empty region has no projection")
        S.cover("none")
    else:
        S.check(Iff(reg.mem(Q, y), w), "projected set")
        if not isinstance(t, str):
            # a projection that calls itself a disjoint union is one (boundaries ignored), so that flattening it later is right
            S.check(disjoint(Q, y), "pieces called disjoint are disjoint")
    S.check(reg.kept(polys), "operands unchanged")


def strict_mem(R, y):
    """y is strictly inside one polytope of the region (on no bounding hyperplane)."""
    if R.region_type == Region_Type.POLYTOPE:
        return geo.strictly(*geo.mat_rows(R.child), y)
    kids = [strict_mem(c, y) for c in R.child]
    return And(kids) if R.region_type == Region_Type.INTERSECT else Or(kids)


def disjoint(Q, y):
    if Q.region_type == Region_Type.POLYTOPE or Q.region_type == Region_Type.COMPLEMENT:
        return And([])
    ok = [disjoint(c, y) for c in Q.child]
    if Q.region_type == Region_Type.DISJOINT_UNION:
        m = [strict_mem(c, y) for c in Q.child]
        ok += [Not(And(u, w)) for i, u in enumerate(m) for w in m[:i]]
    return And(ok)


def h_halfplanes(S, d, n):
    lim = [(S.real(f"l{i}"), S.real(f"u{i}")) for i in range(d)]
    box = []
    for i, (l, u) in enumerate(lim):
        box += [[-l] + [F(int(i == j)) for j in range(d)], [u] + [F(-int(i == j)) for j in range(d)]]
    normals = {1: [(1,), (-2,), (1,)], 2: [(1, 1), (1, -2), (-1, 0)]}[d][:n]
    hp = [[S.real(f"h{i}")] + [F(a) for a in nn] for i, nn in enumerate(normals)]
    R = Region.from_union_of_halfplanes([list(h) for h in hp], [list(b) for b in box])
    x = geo.point(S, d)
    S.check(Iff(reg.mem(R, x), And(geo.inside(box, [], x), Or([geo.row_at(h, x) >= 0 for h in hp]))), "union of the half planes in the box")
    kids = R.child
    S.check(len(kids) == n, "one piece per half plane")
    strict = [geo.strictly(*geo.mat_rows(k.child), x) for k in kids]
    for i in range(n):
        for j in range(i):
            # two pieces share no interior point
            S.check(Or(Not(And(strict[i], strict[j])), bool(kids[i].child.mat.lin_set), bool(kids[j].child.mat.lin_set)), "the pieces are disjoint")


def h_subset(S, a, t, boundary=False):
    """Polytope or union of polytopes against a polytope, a union or an intersection."""
    R, mR, pR = reg.build(S, a, "a")
    Q, mQ, pQ = reg.build(S, t, "b")
    r = bool(R.is_subset_of(Q))
    x = geo.point(S, pR[0][1])
    kind = "P" if isinstance(t, str) else t[0]
    if kind in "UD":
        # boundaries are ignored: strictly inside the candidate, strictly outside every member
        import itertools
        bad = []
        for P, d, I, E in pR:
            if E:
                continue
            S.assume(geo.nonempty_strict(I, E, d))
            for combo in itertools.product(*[outside_rows(J, G) for _, _, J, G in pQ]):
                bad.append(geo.nonempty_strict(I + list(combo), [], d))
        S.check(Iff(r, Not(Or(bad))), "covered iff no part lies outside every member")
    else:
        bad = [geo.mixed(I, [row], E, d) for P, d, I, E in pR for _, _, J, G in pQ for row in outside_rows(J, G)]
        S.check(Iff(r, Not(Or(bad))), "subset iff no point lies outside")
    S.check(Implies(And(r, kind not in "UD"), Implies(mR(x), mQ(x))), "every point of the subset lies in the superset")
    S.check(reg.kept(pR + pQ), "operands unchanged")


def h_nested(S, a, t):
    """Nested trees: answered exactly (boundaries ignored) or refused as not implemented, never answered wrongly."""
    import itertools
    R, mR, pR = reg.build(S, a, "a")
    Q, mQ, pQ = reg.build(S, t, "b")
    for P, d, I, E in pR + pQ:
        S.assume(geo.nonempty_strict(I, E, d))
    try:
        r = bool(R.is_subset_of(Q))
    except NotImplementedError:
        S.cover("refused")
        S.check(reg.kept(pR + pQ), "operands unchanged")
        return

    def sides(tree, it):
        """Unions of intersections of rows: the tree's outside, and its inside, in disjunctive form."""
        if isinstance(tree, str):
            _, _, J, G = next(it)
            return [[row] for row in outside_rows(J, G)], [list(J) + [list(g) for g in G] + [[-c for c in g] for g in G]]
        k = [sides(c, it) for c in tree[1:]]
        join = lambda s: [[r for part in combo for r in part] for combo in itertools.product(*s)]
        u = lambda s: [c for part in s for c in part]
        return (u([o for o, _ in k]), join([i for _, i in k])) if tree[0] == "I" else (join([o for o, _ in k]), u([i for _, i in k]))
    ins = sides(a, iter(pR))[1]
    out = sides(t, iter(pQ))[0]
    d = pR[0][1]
    bad = [geo.nonempty_strict(i + o, [], d) for i in ins for o in out]
    S.check(Iff(r, Not(Or(bad))), "covered iff no part lies outside")
    S.check(reg.kept(pR + pQ), "operands unchanged")
    S.cover("answered")


def h_simplify(S, t):
    R, m, polys = reg.build(S, t)
    for P, d, I, E in polys:
        S.assume(geo.nonempty(I, E, d))
    x = geo.point(S, polys[0][1])
    n = len(R.child)
    ch = R.simplify()
    S.check(ch in (True, False), "reports a truth value")
    S.check(Iff(reg.mem(R, x), m(x)), "simplification keeps the set")
    S.check(len(R.child) <= n, "simplification does not add pieces")
    S.check(reg.kept(polys), "polytopes unchanged")


def h_text(S, t):
    """The displayed region names its operation and each of its polytopes."""
    from checks.P12 import Str_Helper  # noqa: F401  (library formatter)
    R, m, polys = reg.build(S, t)
    names = {"U": "Union", "D": "Disjoint union", "I": "Intersection", "C": "Complement"}

    def ops(t):
        return [] if isinstance(t, str) else [names[t[0]]] + [o for c in t[1:] for o in ops(c)]
    for s in (str(R), R.to_str(), R.to_str(use_indentation=False, variables=["x", "y", "z"])):
        for o in set(ops(t)):
            S.check(s.count(o) >= ops(t).count(o), "each operation is shown")
        for P, *_ in polys:
            S.check(str(P) in s or P.to_str(["x", "y", "z"]) in s, "each polytope is shown")


def h_after(S, t, op, bounded=()):
    """Questions about the polytopes of a region, then one about the region."""
    R, m, polys = reg.build(S, t)
    for i, (P, d, I, E) in enumerate(polys):
        if i in bounded:
            geo.ask(S, P, d, I, E, True, f"h{i}")
    d = polys[0][1]
    x = geo.point(S, d)
    if op == "contains":
        S.check(Iff(bool(R.contains(x)), m(x)), "contains iff the boolean combination holds")
    elif op == "copy":
        Q = copy.copy(R)
        Q.set_label("other")
        S.check(Iff(reg.mem(Q, x), m(x)), "the copy is the same set")
    elif op == "scale":
        Q = R.scale_all([F(-2)] + [F(3)] * (d - 1))
        S.check(Iff(reg.mem(Q, [x[0] * -2] + [c * 3 for c in x[1:]]), m(x)), "scaled set")
    elif op == "simplify":
        for P, d, I, E in polys:
            S.assume(geo.nonempty(I, E, d))
        R.simplify()
        S.check(Iff(reg.mem(R, x), m(x)), "simplification keeps the set")
    S.check(reg.kept(polys), "operands unchanged")


def h_label(S, t):
    R, m, polys = reg.build(S, t)
    lab = ("L", 1)
    R.set_label(lab)
    S.check(all(P.label == lab for P, *_ in polys), "every polytope carries the label")
    S.check(reg.kept(polys), "polytopes unchanged")
    S.cover("any")


HARNESSES = {"contains": h_contains, "transform": h_transform, "project": h_project, "halfplanes": h_halfplanes,
             "subset": h_subset, "nested": h_nested, "simplify": h_simplify, "after": h_after, "text": h_text, "label": h_label}

TREES = ["tri", ["U", "tri", "box"], ["D", "seg", "ray"], ["I", "box", "half"], ["C", "box"], ["C", ["U", "tri", "half"]],
         ["I", ["C", "tri"], ["U", "box", "wedge"]], ["U", ["I", "seg", "ray"], ["C", "seg"]], ["I", ["D", "line", "pt"], "half"],
         ["D", "lineq", ["I", "half", ["C", "strip"]]], ["I", "simp3", ["C", "slab3"]]]


def tasks(tier):
    o = [{"h": "contains", "cfg": {"t": t}, "budget": 350} for t in TREES]
    o += [{"h": "transform", "cfg": {"t": t, "op": op}, "budget": 350} for t in TREES[:10] for op in ("scale", "sub", "lift")
          if not (op == "sub" and t in (TREES[2], TREES[7]))]
    o += [{"h": "project", "cfg": {"t": t, "dims": D}, "budget": 350, "weight": 3} for t, D in (
        ("box", [0]), (["U", "tri", "box"], [1]), (["D", "tri", "tri2"], [0]), (["D", "box", "box"], [0]), (["D", "seg", "seg"], [0]), (["I", "box", "tri"], [0]), (["I", "tri"], [0]),
        (["U", ["I", "tri"], "tri2"], [1]), (["U", "simp3", "flat3"], [2]))]
    o += [{"h": "halfplanes", "cfg": {"d": d, "n": n}, "budget": 350, "weight": 4} for d, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2))]
    o += [{"h": "subset", "cfg": {"a": a, "t": t}, "budget": 350, "weight": 4} for a, t in (
        ("seg", "seg"), ("tri", "box"), ("seg", ["U", "seg", "ray"]), ("tri", ["D", "half", "tri2"]), ("tri", ["I", "half", "wedge"]),
        (["U", "seg", "seg"], "seg"), (["D", "seg", "ray"], ["I", "seg", "ray"]), (["U", "seg", "seg"], ["U", "seg", "ray"]))]
    o += [{"h": "nested", "cfg": {"a": a, "t": t}, "budget": 350, "weight": 5} for a, t in (
        ("seg", ["U", ["U", "seg", "seg"], "ray"]), ("seg", ["U", ["I", "seg", "ray"], "seg"]), (["U", "seg", ["U", "seg", "seg"]], "seg"),
        (["I", "seg", "ray"], "seg"), ("seg", ["I", ["U", "seg", "seg"], "ray"]), ("seg", ["C", "seg"]))]
    o += [{"h": "simplify", "cfg": {"t": t}, "budget": 350, "weight": 6} for t in (
        ["U", "seg", "seg"], ["D", "seg", "seg"], ["U", "tri", "tri"], ["U", "tri", "tri2"], ["U", ["I", "tri"], "tri"], ["I", "box", "tri"])]
    o += [{"h": "text", "cfg": {"t": t}} for t in (["U", "tri", "box"], ["C", "box"], ["I", ["C", "tri"], ["D", "box", "wedge"]])]
    o += [{"h": "after", "cfg": {"t": t, "op": op, "bounded": b}, "budget": 350, "weight": 3} for t, op, b in (
        (["U", "tri", "half"], "contains", [0]), (["I", "seg", ["C", "seg"]], "copy", [0]), (["D", "tri", "half"], "scale", [0]), (["U", "seg", "ray"], "simplify", [0]))]
    o += [{"h": "label", "cfg": {"t": t}} for t in TREES]
    if tier != "quick":
        o += [{"h": "simplify", "cfg": {"t": t}, "budget": 1500, "weight": 9} for t in (["U", "seg", "seg", "seg"], ["U", "tri", "box"])]
        o += [{"h": "halfplanes", "cfg": {"d": 2, "n": 3}, "budget": 1500, "weight": 9}]
        o += [{"h": "subset", "cfg": {"a": a, "t": t}, "budget": 1200, "weight": 6} for a, t in (("box", ["U", "tri", "half"]), ("tri", ["U", "half", "half", "half"]))]
        o += [{"h": "contains", "cfg": {"t": t}, "budget": 900} for t in (["I", ["U", "tri", "box"], ["U", "tri2", "wedge"], ["C", "strip"]],)]
    return o
