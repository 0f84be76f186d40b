"""Polyhedra for the harnesses: concrete normals, symbolic offsets; independent oracles."""
from symx.harness import F, And, Or, Not, Implies, Iff, Session


def lin(n, x):
    s = F(0)
    for a, b in zip(n, x):
        if isinstance(a, (int, F)) and a == 0:
            continue
        s = s + a * b
    return s


def row_at(r, x):
    return r[0] + lin(r[1:], x)


def inside(ineq, eqs, x):
    return And([row_at(r, x) >= 0 for r in ineq] + [row_at(r, x) == 0 for r in eqs])


def strictly(ineq, eqs, x):
    return And([row_at(r, x) > 0 for r in ineq] + [row_at(r, x) == 0 for r in eqs])


def _solv(rows, d):
    """Fourier-Motzkin: formula for 'the rows (offset, normal, kind) have a solution'.
    kind: '>=' | '>' | '=='; normals concrete, offsets symbolic."""
    rows = [(b, tuple(F(a) for a in n), k) for b, n, k in rows]
    for j in range(d):
        eq = next((r for r in rows if r[2] == "==" and r[1][j] != 0), None)
        out = []
        if eq is not None:
            for r in rows:
                if r is eq:
                    continue
                k = r[1][j] / eq[1][j]
                if k == 0:
                    out.append(r)
                else:
                    out.append((r[0] - eq[0] * k, tuple(a - k * c for a, c in zip(r[1], eq[1])), r[2]))
        else:
            pos = [r for r in rows if r[1][j] > 0]
            neg = [r for r in rows if r[1][j] < 0]
            out = [r for r in rows if r[1][j] == 0]
            for p in pos:
                for n in neg:
                    a, c = 1 / p[1][j], -1 / n[1][j]
                    out.append((p[0] * a + n[0] * c, tuple(u * a + v * c for u, v in zip(p[1], n[1])),
                                ">" if ">" in (p[2], n[2]) else ">="))
        seen = set()
        rows = []
        for r in out:
            key = (repr(r[0]), r[1], r[2])
            if key not in seen:
                seen.add(key)
                rows.append(r)
    return And([b >= 0 if k == ">=" else (b > 0 if k == ">" else b == 0) for b, _, k in rows])


def nonempty(ineq, eqs, d):
    return _solv([(r[0], r[1:], ">=") for r in ineq] + [(r[0], r[1:], "==") for r in eqs], d)


def nonempty_strict(ineq, eqs, d, strict=()):
    """ineq > 0, eqs == 0 has a solution (strict: further rows that must be > 0)."""
    return _solv([(r[0], r[1:], ">") for r in ineq] + [(r[0], r[1:], "==") for r in eqs], d)


def mixed(weak, strict, eqs, d):
    return _solv([(r[0], r[1:], ">=") for r in weak] + [(r[0], r[1:], ">") for r in strict] +
                 [(r[0], r[1:], "==") for r in eqs], d)


# templates: (dimension, inequality normals, equality normals)
T = {
    "seg": (1, [(1,), (-1,)], []),
    "ray": (1, [(1,)], []),
    "seg3": (1, [(1,), (-2,), (-1,)], []),
    "pt1": (1, [], [(2,)]),
    "box": (2, [(1, 0), (-1, 0), (0, 1), (0, -1)], []),
    "tri": (2, [(1, 0), (0, 1), (-1, -1)], []),
    "tri2": (2, [(-1, 0), (0, -1), (1, 2)], []),
    "wedge": (2, [(1, -1), (1, 1)], []),
    "half": (2, [(1, 2)], []),
    "strip": (2, [(1, 0), (-1, 0)], []),
    "pent": (2, [(1, 0), (-1, 0), (0, 1), (0, -1), (-1, -1)], []),
    "line": (2, [(1, 0), (-1, 0)], [(1, -1)]),
    "pt": (2, [], [(1, 0), (0, 1)]),
    "lineq": (2, [], [(2, 3)]),
    "box3": (3, [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)], []),
    "simp3": (3, [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, -1, -1)], []),
    "slab3": (3, [(1, 1, 0), (0, 0, 1), (-1, 0, -2)], []),
    "flat3": (3, [(1, 0, 0), (0, 1, 0), (-1, -1, 0)], [(0, 1, -1)]),
}


def offsets(S, tag, n):
    return [S.real(f"{tag}{i}") for i in range(n)]


def rows(S, tag, name):
    d, I, E = T[name]
    b = offsets(S, tag, len(I) + len(E))
    ineq = [[b[i]] + [F(a) for a in n] for i, n in enumerate(I)]
    eqs = [[b[len(I) + i]] + [F(a) for a in n] for i, n in enumerate(E)]
    return d, ineq, eqs


def poly(ineq, eqs):
    from polytope import Polytope
    if not eqs:
        return Polytope([list(r) for r in ineq])
    if not ineq:
        return Polytope([list(r) for r in eqs], linear=True)
    return Polytope.intersection([Polytope([list(r) for r in ineq]),
                                  Polytope([list(r) for r in eqs], linear=True)], canonicalize=False)


def make(S, tag, name):
    d, ineq, eqs = rows(S, tag, name)
    return poly(ineq, eqs), d, ineq, eqs


def mat_in(P, x):
    """Membership formula read off the H-representation the library returned."""
    m = P.mat
    return And([(row_at(m[i], x) == 0) if i in m.lin_set else (row_at(m[i], x) >= 0) for i in range(m.row_size)])


def mat_rows(P):
    m = P.mat
    return ([list(m[i]) for i in range(m.row_size) if i not in m.lin_set],
            [list(m[i]) for i in range(m.row_size) if i in m.lin_set])


def point(S, d, tag="x"):
    return [S.real(f"{tag}{i}") for i in range(d)]


def same(u, v):
    return And([a == b for a, b in zip(u, v)])


def unchanged(P, ineq, eqs):
    """P is still the original set: the same rows, or others with the same points."""
    i2, e2 = mat_rows(P)
    if len(i2) == len(ineq) and len(e2) == len(eqs):
        rows = And([same(u, v) for u, v in zip(i2, ineq)] + [same(u, v) for u, v in zip(e2, eqs)])
        if rows is True:
            return True
    else:
        rows = False
    d = len(([*ineq, *eqs] or [[0]])[0]) - 1
    if P.dimension() != d:
        return False
    x = Session.cur.point(d)
    return Or(rows, Iff(mat_in(P, x), inside(ineq, eqs, x)))


BOUNDED = ("seg", "seg3", "box", "tri", "tri2", "pent", "line", "pt", "pt1", "box3", "simp3", "flat3")


def ask(S, P, d, I, E, bounded, tag="h"):
    """Put one earlier question to P (chosen freely), as any caller may have done; returns P, or a copy taken after the question."""
    from polytope import Polytope
    import copy
    ops = ["incl", "excl", "subset", "minus", "contains", "intersect", "cover"] + (["vertices", "centroid"] if bounded else [])
    o = S.choice(tag + "op", ops)
    other = Polytope([[F(1)] + [F(1)] * d])
    if o == "incl":
        P.is_empty()
    elif o == "excl":
        P.is_empty(include_boundary=False)
    elif o == "subset":
        P.is_subset_of(other)
    elif o == "cover":
        P.is_covered_by([other])
    elif o == "minus":
        P.set_minus(other)
    elif o == "contains":
        P.contains([F(0)] * d)
    elif o == "intersect":
        P.intersect(other)
    elif bool(nonempty(I, E, d)):
        P.get_vertices() if o == "vertices" else P.get_centroid()
        if o == "vertices" and not E and bool(nonempty_strict(I, E, d)):
            P.get_edges()
    return copy.copy(P) if S.boolean(tag + "copied") else P
