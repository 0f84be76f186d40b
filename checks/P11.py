"""Piecewise-affine functions in several variables: minimum, cropping, simplification, evaluation."""
import copy
import itertools
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from polytope import Polytope
from functions import Affine2, Piecewise

BOUNDS = ("minimum of 2 functions with arbitrary coefficients on fixed or arbitrary boxes, triangles and intervals, "
          "of 1 function against 2 pieces, and of 2 against 2 pieces; cropping and simplification of 2-3 pieces with arbitrary domains; "
          "an arbitrary query point off the bounding hyperplanes")
ASSUMPTIONS = ["bounded domains; the pieces of a piecewise function have disjoint interiors"]

SH = {
    "seg": [[F(0), F(1)], [F(2), F(-1)]],
    "box": [[F(0), F(1), F(0)], [F(1), F(-1), F(0)], [F(0), F(0), F(1)], [F(1), F(0), F(-1)]],
    "tri": [[F(0), F(1), F(0)], [F(0), F(0), F(1)], [F(1), F(-1), F(-1)]],
    "tri2": [[F(1), F(-1), F(0)], [F(1), F(0), F(-1)], [F(-1, 2), F(1), F(1)]],
}


def fun(S, tag, a, dom, label):
    """a: coefficients, None = arbitrary; dom: shape name or template prefixed by '*' (arbitrary offsets)."""
    co = [S.real(f"{tag}{i}") if c is None else F(c) for i, c in enumerate(a)]
    if dom[0] == "*":
        d, I, E = geo.rows(S, tag + "d", dom[1:])
    else:
        I = SH[dom]
    return Affine2(co, Polytope([list(r) for r in I]), label), co, I


def ev(c, x):
    return c[0] + geo.lin(c[1:], x)


def read(S, pieces, x):
    return [(geo.mat_in(p.domain, x), ev(p.a, x), p.label) for p in pieces]


def h_min(S, f, gs, labels, via):
    """min of one function with a list of functions on disjoint domains."""
    fs = [fun(S, "f", f[0], f[1], labels[0])]
    gl = [fun(S, f"g{i}", g[0], g[1], labels[1 + i]) for i, g in enumerate(gs)]
    d = len(f[0]) - 1
    x = geo.point(S, d)
    for (_, _, I), (_, _, J) in itertools.combinations(gl, 2):
        S.assume(Not(geo.nonempty_strict(I + J, [], d)))
    off = And([geo.row_at(r, x) != 0 for _, _, I in fs + gl for r in I])
    S.assume(off)
    if via == "affine":
        out = fs[0][0].min_with([g[0] for g in gl])
    else:
        out = Piecewise([h[0] for h in fs]).min_with(Piecewise([g[0] for g in gl])).pieces
    R = read(S, out, x)
    both = [(And(geo.inside(fs[0][2], [], x), geo.inside(J, [], x)), ev(fs[0][1], x), ev(c, x), g.label) for g, c, J in gl]
    S.check(Iff(Or([r[0] for r in R]), Or([b[0] for b in both])), "defined exactly on the common domain")
    for inn, v, lab in R:
        for both_in, u, w, gl_lab in both:
            S.check(Implies(And(inn, both_in), And(v <= u, v <= w, Or(v == u, v == w))), "the value is the minimum")
            if lab is not None:
                S.check(Implies(And(inn, both_in), Or(And(lab == labels[0], v == u), And(lab == gl_lab, v == w))), "the label names a function attaining the value")
    if sum(c is None for h in [f] + gs for c in h[0]) < 2:
        Piecewise(out).crop(Polytope([[F(-1, 3)] + [F(1)] * d]), False)
    S.check(And([And(geo.same(h.a, c), geo.unchanged(h.domain, I, [])) for h, c, I in fs + gl]), "operands unchanged, also when the result is cropped later")
    S.check([h[0].label for h in fs + gl] == labels[:1 + len(gl)], "labels of the operands unchanged")


def h_crop(S, doms, crop, simplify):
    fs = [fun(S, f"f{i}", [i, None] + [1] * (len(SH.get(dm, SH["box"])[0]) - 2 if dm[0] != "*" else geo.T[dm[1:]][0] - 1), dm, None) for i, dm in enumerate(doms)]
    d = len(fs[0][1]) - 1
    _, J, _ = geo.rows(S, "c", crop)
    x = geo.point(S, d)
    P = Piecewise([f[0] for f in fs])
    P.crop(Polytope([list(r) for r in J]), simplify)
    S.assume(And([geo.row_at(r, x) != 0 for _, _, I in fs for r in I] + [geo.row_at(r, x) != 0 for r in J]))
    R = read(S, P.pieces, x)
    want = [(And(geo.inside(I, [], x), geo.inside(J, [], x)), ev(c, x)) for _, c, I in fs]
    for w, v in want:
        S.check(Implies(w, Or([And(i, u == v) for i, u, _ in R])), "the function is kept inside the crop domain")
    for i, u, _ in R:
        S.check(Implies(i, Or([And(w, u == v) for w, v in want])), "nothing is defined outside the crop domain")
    if simplify:
        S.check(all(not p.domain.is_empty(include_boundary=False) for p in P.pieces), "pieces without interior are dropped")


def h_simplify(S, doms, groups, grouping):
    """groups: equal numbers = same function and label."""
    fs = [fun(S, f"f{i}", [g] + [1] * geo.T[dm[1:]][0], dm, f"L{g}") for i, (dm, g) in enumerate(zip(doms, groups))]
    d = len(fs[0][1]) - 1
    for _, _, I in fs:
        S.assume(geo.nonempty_strict(I, [], d))
    P = Piecewise([f[0] for f in fs])
    P.simplify(grouping)
    x = geo.point(S, d)
    R = read(S, P.pieces, x)
    for g in set(groups):
        want = Or([geo.inside(I, [], x) for (_, _, I), h in zip(fs, groups) if h == g])
        got = Or([i for (i, v, lab), p in zip(R, P.pieces) if lab == f"L{g}"])
        S.check(Iff(want, got), "each function keeps its domain")
    for p in P.pieces:
        g = int(p.label[1:])
        S.check(list(p.a) == [F(g)] + [F(1)] * d, "function and label belong together")
    S.check(len(P.pieces) <= len(fs), "not more pieces than before")


def h_at(S, doms):
    fs = [fun(S, f"f{i}", [None] * (1 + geo.T[dm[1:]][0]), dm, i) for i, dm in enumerate(doms)]
    d = len(fs[0][1]) - 1
    x = geo.point(S, d)
    P = Piecewise([f[0] for f in fs])
    v = P.at(x)
    ins = [geo.inside(I, [], x) for _, _, I in fs]
    if v is None:
        S.check(Not(Or(ins)), "undefined only outside every domain")
        S.cover("undefined")
    else:
        S.check(Or([And(i, v == ev(c, x)) for i, (_, c, _) in zip(ins, fs)]), "value of a piece defined there")
    C = copy.copy(P)
    S.check([p.label for p in C.pieces] == list(range(len(fs))), "the copy keeps the labels")
    S.check(And([And(geo.same(p.a, c), geo.unchanged(p.domain, I, [])) for p, (_, c, I) in zip(C.pieces, fs)]), "the copy is the same function")
    C.pieces[0].domain.canonicalize()
    C.pieces[-1].label = "other"
    C.crop(Polytope([[F(-1, 3)] + [F(1)] * d]), False)
    S.check(And([And(p.label == i, geo.same(p.a, c), geo.unchanged(p.domain, I, [])) for i, (p, (_, c, I)) in enumerate(zip(P.pieces, fs))]), "changing the copy leaves the original alone")
    C = copy.copy(P)
    w = C.at(x)
    S.check((w is None) == (v is None) and (v is None or w == v), "the copy has the same values")


def h_plane(S, d):
    a, b = S.reals([f"a{i}" for i in range(d + 1)]), S.reals([f"b{i}" for i in range(d + 1)])
    dom = Polytope.rect(*[(F(0), F(1))] * d)
    H = Affine2(list(a), dom).intersection(Affine2(list(b), dom))
    x = geo.point(S, d)
    S.check(Iff(H.contains(x), ev(a, x) == ev(b, x)), "the crossing plane is where the functions agree")
    S.check(Affine2(list(a), dom).at(x) == ev(a, x), "evaluation")


HARNESSES = {"min": h_min, "crop": h_crop, "simplify": h_simplify, "at": h_at, "plane": h_plane}


def tasks(tier):
    N = None
    o = [{"h": "min", "cfg": {"f": f, "gs": gs, "labels": lab, "via": via}, "budget": 380, "weight": w} for f, gs, lab, via, w in (
        (([N, N], "seg"), [([0, 0], "seg")], ["b", "a"], "affine", 2),
        (([N, N], "seg"), [([N, N], "seg")], ["a", "b"], "affine", 3),
        (([N, N], "seg"), [([N, N], "seg")], [N, N], "affine", 3),
        (([1, -1], "*seg"), [([0, 1], "*seg")], ["a", "b"], "affine", 4),
        (([N, N], "*seg"), [([0, 0], "seg")], ["a", "b"], "affine", 6),
        (([0, 0, 0], "box"), [([N, 1, N], "tri")], ["a", "b"], "affine", 6),
        (([N, N, 1], "tri2"), [([0, 0, 0], "box")], ["b", "a"], "piece", 6),
        (([N, 1], "seg"), [([0, 0], "*seg"), ([1, 2], "*seg")], ["a", "b", "c"], "piece", 8))]
    o += [{"h": "crop", "cfg": {"doms": dm, "crop": c, "simplify": s}, "budget": 350, "weight": 3} for dm, c, s in (
        (["*seg", "*seg"], "seg", True), (["*seg", "*ray"], "ray", False), (["box", "tri"], "half", True), (["*tri"], "box", True), (["tri", "tri2"], "tri", True))]
    o += [{"h": "simplify", "cfg": {"doms": dm, "groups": g, "grouping": k}, "budget": 380, "weight": 5} for dm, g, k in (
        (["*seg", "*seg"], [1, 1], 3), (["*seg", "*seg"], [1, 2], 3), (["*seg", "*seg", "*seg"], [1, 2, 1], 2), (["*tri", "*tri"], [1, 1], 2))]
    o += [{"h": "at", "cfg": {"doms": dm}, "budget": 300} for dm in (["*seg"], ["*seg", "*ray"], ["*tri", "*half"])]
    o += [{"h": "plane", "cfg": {"d": d}} for d in (1, 2, 3)]
    if tier != "quick":
        o += [{"h": "simplify", "cfg": {"doms": ["*seg"] * 3, "groups": [1, 1, 1], "grouping": 3}, "budget": 1800, "weight": 9},
              {"h": "min", "cfg": {"f": ([N, N], "*seg"), "gs": [([N, N], "*seg")], "labels": ["a", "b"], "via": "affine"}, "budget": 1500, "weight": 9},
              {"h": "min", "cfg": {"f": ([N, N, N], "box"), "gs": [([0, 0, 0], "tri2")], "labels": ["a", "b"], "via": "affine"}, "budget": 1500, "weight": 9}]
    return o
