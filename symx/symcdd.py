"""Stand-in for pycddlib on symbolic rationals.

Concrete matrices are delegated to the real cdd.  With symbolic entries the
stand-in implements cdd's documented contract exactly:

* LinProg with concrete normals and symbolic offsets: the dual polyhedron is concrete,
  so feasibility is "every Farkas ray is non-negative on the offsets" and the optimum
  is the best dual vertex (linear in the offsets).  With symbolic normals: a fresh
  primal/dual certificate pair (optimality, infeasibility or unboundedness).
* canonicalize: finds the implicit equalities (rows that are constant 0 on the set).
  Redundant inequality rows are only dropped when that is decided without branching.
* Polyhedron from inequalities: vertices by enumeration of bases.
* Polyhedron from generators: dimension 1 and 2 (and concrete points in any dimension).
"""
import importlib.util
import itertools
import sys
from fractions import Fraction as F

from . import engine as E
from .engine import SNum, And, Or, Not


def _load_real():
    if "cdd" in sys.modules and not getattr(sys.modules["cdd"], "IS_STANDIN", False):
        return sys.modules["cdd"]
    import cdd
    return cdd


_real = _load_real()

IS_STANDIN = True
# leave rows with symbolic normals as they are (the described set is unchanged); set by harnesses in which only
# the described set matters
KEEP_SYMBOLIC_NORMALS = False
RepType = _real.RepType
LPObjType = _real.LPObjType
LPStatusType = _real.LPStatusType
LPSolverType = _real.LPSolverType
NumberTypeable = _real.NumberTypeable
Error = getattr(_real, "Error", RuntimeError)
Fraction = _real.Fraction


def is_s(x):
    return isinstance(x, SNum)


def norm(x):
    """Entries come back as int when integral, Fraction otherwise (as in cdd)."""
    if is_s(x):
        return x
    c = E.as_exact(x)
    if c is None:
        raise TypeError(f"not a number: {x!r}")
    return int(c) if c.denominator == 1 else c


def row_sym(r):
    return any(is_s(x) for x in r)


class Matrix:
    def __init__(self, rows, linear=False, number_type=None):
        rows = [tuple(norm(x) for x in r) for r in rows]
        if rows and len({len(r) for r in rows}) != 1:
            raise ValueError("rows have different lengths")
        self._rows = rows
        self._cols = len(rows[0]) if rows else 0
        self._lin = set(range(len(rows))) if linear else set()
        self._fixed = bool(rows)
        self.number_type = number_type or "fraction"
        self.rep_type = RepType.UNSPECIFIED
        self.obj_type = LPObjType.NONE
        self._obj = tuple([0] * self._cols)

    # -- attributes
    @property
    def row_size(self):
        return len(self._rows)

    @property
    def col_size(self):
        return self._cols

    @property
    def lin_set(self):
        return frozenset(self._lin)

    @lin_set.setter
    def lin_set(self, v):
        self._lin = set(v)

    @property
    def obj_func(self):
        return self._obj

    @obj_func.setter
    def obj_func(self, v):
        v = tuple(norm(x) for x in v)
        if len(v) != self._cols:
            raise ValueError("objective function has wrong length")
        self._obj = v

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self._rows[i])
        if i < 0 or i >= len(self._rows):
            if i < 0 and -i <= len(self._rows):
                return self._rows[i]
            raise IndexError("row index out of range")
        return self._rows[i]

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        return iter(list(self._rows))

    def __repr__(self):
        return f"SymMatrix({self._rows}, lin={sorted(self._lin)})"

    __str__ = __repr__

    def copy(self):
        m = Matrix([])
        m._rows = list(self._rows)
        m._cols = self._cols
        m._lin = set(self._lin)
        m.number_type = self.number_type
        m.rep_type = self.rep_type
        m.obj_type = self.obj_type
        m._obj = self._obj
        return m

    __copy__ = copy

    def extend(self, rows, linear=False):
        rows = [tuple(norm(x) for x in r) for r in rows]
        if not rows or any(len(r) != self._cols for r in rows):
            raise ValueError("cannot append because column sizes differ")
        n = len(self._rows)
        self._rows.extend(rows)
        if linear:
            self._lin.update(range(n, n + len(rows)))

    # -- conversion
    def symbolic(self):
        return any(row_sym(r) for r in self._rows)

    def real(self):
        m = _real.Matrix([[F(x) for x in r] for r in self._rows], number_type="fraction")
        m.rep_type = self.rep_type
        if self._lin:
            m.lin_set = frozenset(self._lin)
        if not any(is_s(x) for x in self._obj):
            m.obj_type = self.obj_type
            if self._cols:
                m.obj_func = tuple(self._obj)
        return m

    def _from_real(self, m):
        self._rows = [tuple(norm(x) for x in m[i]) for i in range(m.row_size)]
        self._lin = set(m.lin_set)

    # -- canonical form
    def canonicalize(self):
        if not self.symbolic():
            m = self.real()
            r = m.canonicalize()
            self._from_real(m)
            return r
        d = self._cols - 1
        if self.rep_type == RepType.GENERATOR:
            raise E.EngineLimit("canonicalize of symbolic generators")
        if KEEP_SYMBOLIC_NORMALS and any(row_sym(r[1:]) for r in self._rows):
            return (frozenset(self._lin), frozenset())
        self._dedupe()
        ineq = [r for i, r in enumerate(self._rows) if i not in self._lin]
        eqs = [r for i, r in enumerate(self._rows) if i in self._lin]
        new_eq = []
        rest = ineq
        if not strictly_feasible(ineq, eqs, d):
            if not feasible(ineq, eqs, d):
                # cdd moves rows of an inconsistent system to the linearity set;
                # the described set stays empty
                self._rows = eqs + ineq
                self._lin = set(range(len(self._rows)))
                return (frozenset(self._lin), frozenset())
            rest = []
            for r in ineq:
                if all((not is_s(x)) and x == 0 for x in r[1:]):
                    # a constant row: an implicit equality only if it is 0
                    if is_s(r[0]) and bool(r[0] == 0):
                        continue
                    continue
                st, val = solve_lp("max", r, ineq, eqs, d)
                if st == "optimal" and bool(val == 0):
                    new_eq.append(r)
                else:
                    rest.append(r)
        else:
            rest = [r for r in ineq if not all((not is_s(x)) and x == 0 for x in r[1:])]
        # independent equality rows only (rank reduction when decidable)
        eqs = _independent(eqs + new_eq)
        self._rows = eqs + rest
        self._lin = set(range(len(eqs)))
        return (frozenset(self._lin), frozenset())

    def _dedupe(self):
        """Drop rows implied by a parallel row with a decided offset difference."""
        keep = []
        for i, r in enumerate(self._rows):
            lin = i in self._lin
            drop = False
            if not lin:
                for j, (q, qlin) in enumerate(keep):
                    if qlin or any(is_s(x) for x in q[1:]) or any(is_s(x) for x in r[1:]):
                        continue
                    k = _ratio(q[1:], r[1:])
                    if k is None:
                        continue
                    diff = r[0] - q[0] * k if k != 1 else r[0] - q[0]
                    dd = E.CTX._quick(E.atom(diff.num, ">=")) if is_s(diff) else bool(diff >= 0)
                    if dd is True:
                        drop = True
                        break
                    nd = E.CTX._quick(E.atom(diff.num, "<=")) if is_s(diff) else bool(diff <= 0)
                    if nd is True:
                        keep[j] = (r, False)
                        drop = True
                        break
            if not drop:
                keep.append((r, lin))
        self._rows = [r for r, _ in keep]
        self._lin = {i for i, (_, l) in enumerate(keep) if l}


def _ratio(a, b):
    """k > 0 with b = k a (concrete vectors), else None."""
    k = None
    for x, y in zip(a, b):
        if x == 0 and y == 0:
            continue
        if x == 0 or y == 0:
            return None
        q = F(y) / F(x)
        if k is None:
            k = q
        elif k != q:
            return None
    return k if k is not None and k > 0 else None


def _independent(eqs):
    """Drop equality rows whose normals depend on the earlier ones (consistent system)."""
    out = []
    for r in eqs:
        if any(is_s(x) for x in r[1:]) or any(any(is_s(x) for x in q[1:]) for q in out):
            out.append(r)
            continue
        if rank([q[1:] for q in out] + [r[1:]]) > len(out):
            out.append(r)
    return out


def rank(rows):
    rows = [[F(x) for x in r] for r in rows]
    rk = 0
    n = len(rows[0]) if rows else 0
    for c in range(n):
        p = next((i for i in range(rk, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[rk], rows[p] = rows[p], rows[rk]
        pv = rows[rk][c]
        rows[rk] = [x / pv for x in rows[rk]]
        for i in range(len(rows)):
            if i != rk and rows[i][c] != 0:
                k = rows[i][c]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[rk])]
        rk += 1
    return rk


# ---------------------------------------------------------------------------
# linear programming

_dual_cache = {}


def dual_generators(A, E_set, c, d):
    """Vertices and rays of {y : A^T y = c, y_i >= 0 for i not in E_set} (concrete)."""
    key = (A, E_set, c)
    if key in _dual_cache:
        return _dual_cache[key]
    n = len(A)
    if n == 0:
        res = (([()] if all(x == 0 for x in c) else []), [])
        _dual_cache[key] = res
        return res
    rows = []
    lin = []
    for j in range(d):
        rows.append([-F(c[j])] + [F(A[i][j]) for i in range(n)])
        lin.append(len(rows) - 1)
    for i in range(n):
        if i not in E_set:
            rows.append([F(0)] + [F(1) if k == i else F(0) for k in range(n)])
    m = _real.Matrix(rows, number_type="fraction")
    m.rep_type = RepType.INEQUALITY
    m.lin_set = frozenset(lin)
    g = _real.Polyhedron(m).get_generators()
    pts, rays = [], []
    anyrow = g.row_size > 0
    for i in range(g.row_size):
        r = g[i]
        if i in g.lin_set and r[0] == 0:
            rays.append(tuple(r[1:]))
            rays.append(tuple(-x for x in r[1:]))
        elif r[0] == 0:
            rays.append(tuple(r[1:]))
        else:
            pts.append(tuple(r[1:]))
    if not pts and all(x == 0 for x in c):
        pts = [tuple([0] * n)]      # a cone: cdd lists no apex
    res = (pts, rays)
    _dual_cache[key] = res
    return res


def _dot(y, b):
    s = 0
    for yi, bi in zip(y, b):
        if yi != 0:
            s = s + yi * bi
    return s


def _split(ineq, eqs):
    rows = list(eqs) + list(ineq)
    A = tuple(tuple(r[1:]) for r in rows)
    b = [r[0] for r in rows]
    return A, b, frozenset(range(len(eqs)))


def normals_concrete(ineq, eqs):
    return not any(is_s(x) for r in itertools.chain(ineq, eqs) for x in r[1:])


def feasible_formula(ineq, eqs, d):
    """Formula: {x : ineq >= 0, eqs = 0} is non-empty.  Concrete normals only."""
    A, b, ES = _split(ineq, eqs)
    _, rays = dual_generators(A, ES, tuple([F(0)] * d), d)
    return And([_dot(y, b) >= 0 for y in rays])


def strict_formula(ineq, eqs, d):
    """Formula: {x : ineq > 0, eqs = 0} is non-empty.  Concrete normals only."""
    A, b, ES = _split(ineq, eqs)
    _, rays = dual_generators(A, ES, tuple([F(0)] * d), d)
    out = []
    for y in rays:
        if all(y[i] == 0 for i in range(len(A)) if i not in ES):
            out.append(_dot(y, b) >= 0)   # equalities only
        else:
            out.append(_dot(y, b) > 0)
    return And(out)


def feasible(ineq, eqs, d):
    if normals_concrete(ineq, eqs):
        return bool(feasible_formula(ineq, eqs, d))
    return solve_lp("max", tuple([0] * (d + 1)), ineq, eqs, d)[0] == "optimal"


def strictly_feasible(ineq, eqs, d):
    """A point with every (non-trivial) inequality strict and the equalities exact."""
    if normals_concrete(ineq, eqs):
        return bool(strict_formula(ineq, eqs, d))
    rows = [tuple(r) + (-1,) for r in ineq] + [(1,) + (0,) * d + (-1,)] + [(0,) * (d + 1) + (1,)]
    eq2 = [tuple(r) + (0,) for r in eqs]
    st, val = solve_lp("max", (0,) * (d + 1) + (1,), rows, eq2, d + 1)
    return st == "optimal" and bool(val > 0)


def solve_lp(sense, obj, ineq, eqs, d, want_primal=None):
    """Returns (status, value); appends a primal solution to want_primal if given."""
    if sense == "max":
        st, v = _solve_min(tuple(-x for x in obj), ineq, eqs, d, want_primal)
        return st, (None if v is None else -v)
    return _solve_min(tuple(obj), ineq, eqs, d, want_primal)


def _solve_min(obj, ineq, eqs, d, want_primal):
    ctx = E.CTX
    c0, c = obj[0], tuple(obj[1:])
    if normals_concrete(ineq, eqs) and not any(is_s(x) for x in c):
        A, b, ES = _split(ineq, eqs)
        if not bool(feasible_formula(ineq, eqs, d)):
            return "infeasible", None
        pts, _ = dual_generators(A, ES, tuple(F(x) for x in c), d)
        if not pts:
            return "unbounded", None
        vals = []
        for y in pts:
            v = -_dot(y, b)
            if not any((not is_s(v - w)) and v - w == 0 for w in vals):
                vals.append(v)
        if len(vals) == 1:
            opt = vals[0]
        else:
            opt = ctx.fresh("lpval")
            ctx.add(And([opt >= v for v in vals]))
            ctx.add(Or([opt <= v for v in vals]))
        if want_primal is not None:
            x = [ctx.fresh("lpx") for _ in range(d)]
            ctx.add(And([_row_at(r, x) >= 0 for r in ineq] + [_row_at(r, x) == 0 for r in eqs]))
            s = 0
            for ci, xi in zip(c, x):
                if ci != 0:
                    s = s + ci * xi
            ctx.add((s - opt) == 0)
            want_primal.extend(x)
        return "optimal", opt + c0
    # symbolic normals: certificates
    x = [ctx.fresh("lpx") for _ in range(d)]
    rows = list(eqs) + list(ineq)
    ne = len(eqs)
    prim = And([_row_at(r, x) == 0 for r in eqs] + [_row_at(r, x) >= 0 for r in ineq])
    cond_opt_y = [ctx.fresh("lpy") for _ in rows]
    dualf = And([y >= 0 for y in cond_opt_y[ne:]] +
                [(sum((y * r[j + 1] for y, r in zip(cond_opt_y, rows)), F(0)) - c[j]) == 0 for j in range(d)])
    cx = F(0)
    for ci, xi in zip(c, x):
        cx = cx + ci * xi
    by = F(0)
    for y, r in zip(cond_opt_y, rows):
        by = by + y * r[0]
    opt = And(prim, dualf, (cx + by) == 0)
    far = [ctx.fresh("lpf") for _ in rows]
    bf = F(0)
    for y, r in zip(far, rows):
        bf = bf + y * r[0]
    inf = And([y >= 0 for y in far[ne:]] +
              [sum((y * r[j + 1] for y, r in zip(far, rows)), F(0)) == 0 for j in range(d)] + [bf == -1])
    if bool(all(not is_s(v) and v == 0 for v in c)):
        # pure feasibility: never unbounded
        which = ctx.fresh("lpst")
        if ctx.branch(which == 0):
            ctx.assume(prim)
            if want_primal is not None:
                want_primal.extend(x)
            return "optimal", E.as_exact(c0) if not is_s(c0) else c0
        ctx.assume(inf)
        return "infeasible", None
    which = ctx.fresh("lpst")
    if ctx.branch(which == 0):
        ctx.assume(opt)
        if want_primal is not None:
            want_primal.extend(x)
        return "optimal", cx + c0
    if ctx.branch(which == 1):
        ctx.assume(inf)
        return "infeasible", None
    ray = [ctx.fresh("lpr") for _ in range(d)]
    unb = And([_lin_at(r, ray) == 0 for r in eqs] + [_lin_at(r, ray) >= 0 for r in ineq])
    cr = F(0)
    for ci, xi in zip(c, ray):
        cr = cr + ci * xi
    ctx.assume(And(prim, unb, cr == -1))
    return "unbounded", None


def _row_at(r, x):
    return r[0] + _lin_at(r, x)


def _lin_at(r, x):
    s = F(0)
    for ri, xi in zip(r[1:], x):
        if is_s(ri) or ri != 0:
            s = s + ri * xi
    return s


class LinProg:
    def __init__(self, mat):
        self._mat = mat.copy()
        self.obj_type = mat.obj_type
        self.status = LPStatusType.UNDECIDED
        self.obj_value = 0
        self.solver = LPSolverType.DUAL_SIMPLEX
        self._primal = None
        self._primal_fn = None

    def solve(self, solver=None):
        m = self._mat
        d = m.col_size - 1
        if not m.symbolic() and not any(is_s(x) for x in m._obj):
            mm = m.real()
            lp = _real.LinProg(mm)
            lp.obj_type = self.obj_type
            lp.solve()
            self.status = lp.status
            self.obj_value = lp.obj_value
            self._primal = lp.primal_solution
            self._dual = lp.dual_solution
            return
        ineq = [r for i, r in enumerate(m._rows) if i not in m._lin]
        eqs = [r for i, r in enumerate(m._rows) if i in m._lin]
        prim = []
        self._args = (ineq, eqs, d)
        if self.obj_type == LPObjType.NONE:
            raise E.EngineLimit("LP without an objective sense")
        sense = "max" if self.obj_type == LPObjType.MAX else "min"
        if normals_concrete(ineq, eqs) and not any(is_s(x) for x in m._obj[1:]):
            A = [r[1:] for r in m._rows]
            if rank(A + [m._obj[1:]]) > rank(A):
                # the objective is outside the row space: cdd stops before looking at feasibility
                self.status = LPStatusType.STRUC_DUAL_INCONSISTENT
                self.obj_value = 0
                self._primal = tuple([0] * d)
                return
        st, v = solve_lp(sense, m._obj, ineq, eqs, d, prim)
        if st == "optimal":
            self.status = LPStatusType.OPTIMAL
            self.obj_value = v
            self._primal = tuple(prim)
        else:
            self.status = (LPStatusType.INCONSISTENT if st == "infeasible"
                           else LPStatusType.DUAL_INCONSISTENT)
            self.obj_value = 0
            self._primal = tuple([0] * d)

    @property
    def primal_solution(self):
        return self._primal

    @property
    def dual_solution(self):
        raise E.EngineLimit("dual solution")


# ---------------------------------------------------------------------------
# vertex enumeration

def solve_square(rows, d):
    """x with rows x + offset = 0; concrete normals of rank d.  None if singular."""
    M = [[F(v) for v in r[1:]] for r in rows]
    rhs = [-1 * r[0] if is_s(r[0]) else -F(r[0]) for r in rows]
    n = d
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        rhs[c], rhs[p] = rhs[p], rhs[c]
        pv = M[c][c]
        M[c] = [v / pv for v in M[c]]
        rhs[c] = rhs[c] * (1 / pv)
        for i in range(n):
            if i != c and M[i][c] != 0:
                k = M[i][c]
                M[i] = [v - k * w for v, w in zip(M[i], M[c])]
                rhs[i] = rhs[i] - rhs[c] * k
    return rhs


def solve_square_sym(rows, d):
    """Cramer's rule with symbolic normals (d <= 2).  None if singular (forks)."""
    if d == 1:
        a = rows[0][1]
        if bool(a == 0):
            return None
        return [(-1 * rows[0][0]) / a]
    if d == 2:
        (p, a, b), (q, c, e) = rows
        det = a * e - b * c
        if bool(det == 0):
            return None
        return [(b * q - e * p) / det, (c * p - a * q) / det]
    raise E.EngineLimit("vertices with symbolic normals in dimension > 2")


def vertices(ineq, eqs, d):
    conc = normals_concrete(ineq, eqs)
    if conc and not feasible(ineq, eqs, d):
        return []
    rows = list(eqs) + list(ineq)
    ne = len(eqs)
    cands = []
    if conc:
        base_eq = _independent(list(eqs))
        need = d - len(base_eq)
        for comb in itertools.combinations(ineq, need):
            x = solve_square(list(base_eq) + list(comb), d) if need >= 0 else None
            if x is None:
                continue
            if any(all(not is_s(u - w) and u - w == 0 for u, w in zip(x, y)) for y in cands):
                continue
            cands.append(x)
    else:
        if not feasible(ineq, eqs, d):
            return []
        for comb in itertools.combinations(range(len(rows)), d):
            if sum(1 for i in comb if i < ne) < min(ne, d):
                continue
            x = solve_square_sym([rows[i] for i in comb], d)
            if x is not None:
                cands.append(x)
    out = []
    for x in cands:
        ok = And([_row_at(r, x) >= 0 for r in ineq] + [_row_at(r, x) == 0 for r in eqs])
        if not bool(ok):
            continue
        if any(bool(And([u == w for u, w in zip(x, y)])) for y in out):
            continue
        out.append([norm(v) for v in x])
    return out


def recession_rays(ineq, eqs, d):
    if not normals_concrete(ineq, eqs):
        # bounded polygons only: harnesses guarantee it
        return [], []
    rows = [[F(0)] + [F(x) for x in r[1:]] for r in eqs] + [[F(0)] + [F(x) for x in r[1:]] for r in ineq]
    m = _real.Matrix(rows, number_type="fraction")
    m.rep_type = RepType.INEQUALITY
    m.lin_set = frozenset(range(len(eqs)))
    g = _real.Polyhedron(m).get_generators()
    rays = [tuple(norm(x) for x in g[i]) for i in range(g.row_size) if g[i][0] == 0 and i not in g.lin_set]
    lines = [tuple(norm(x) for x in g[i]) for i in range(g.row_size) if g[i][0] == 0 and i in g.lin_set]
    return rays, lines


class Polyhedron:
    def __init__(self, mat):
        self._mat = mat.copy()
        self.rep_type = mat.rep_type
        self._gens = None

    def _realp(self):
        return _real.Polyhedron(self._mat.real())

    def _back(self, m):
        out = Matrix([tuple(m[i]) for i in range(m.row_size)], number_type="fraction")
        out._cols = m.col_size
        out._lin = set(m.lin_set)
        out.rep_type = m.rep_type
        return out

    def get_generators(self):
        if not self._mat.symbolic():
            return self._back(self._realp().get_generators())
        if self.rep_type == RepType.GENERATOR:
            return self._mat.copy()
        if self._gens is None:
            m = self._mat
            d = m.col_size - 1
            ineq = [r for i, r in enumerate(m._rows) if i not in m._lin]
            eqs = [r for i, r in enumerate(m._rows) if i in m._lin]
            self._ineq, self._eqs, self._d = ineq, eqs, d
            vs = vertices(ineq, eqs, d)
            rows = [tuple([1] + list(v)) for v in vs]
            lin = set()
            if vs or feasible(ineq, eqs, d):
                rays, lines = recession_rays(ineq, eqs, d)
                if lines:
                    raise E.EngineLimit("generators of a non-pointed symbolic polyhedron")
                if rays and len(rows) == 1 and bool(And([r[0] == 0 for r in ineq + eqs])):
                    rows = []       # cdd reports a homogeneous cone by its rays alone
                rows += rays
            g = Matrix(rows)
            g._cols = m.col_size
            g.rep_type = RepType.GENERATOR
            g._lin = lin
            self._gens = g
        return self._gens.copy()

    def get_adjacency(self):
        if not self._mat.symbolic():
            return self._realp().get_adjacency()
        if self.rep_type == RepType.GENERATOR:
            raise E.EngineLimit("adjacency of symbolic generators")
        g = self.get_generators()
        rows = list(self._eqs) + list(self._ineq)
        ne = len(self._eqs)
        if any(r[0] == 0 and not is_s(r[0]) for r in g._rows):
            raise E.EngineLimit("adjacency of an unbounded symbolic polyhedron")
        tight = []
        for v in g._rows:
            x = v[1:]
            tight.append({i for i, r in enumerate(rows) if i < ne or bool(_row_at(r, x) == 0)})
        n = len(g._rows)
        # two vertices are adjacent iff no third vertex is tight wherever both are
        adj = [set() for _ in range(n)]
        for i in range(n):
            for j in range(i):
                common = tight[i] & tight[j]
                if not any(k != i and k != j and common <= tight[k] for k in range(n)):
                    adj[i].add(j)
                    adj[j].add(i)
        return tuple(frozenset(a) for a in adj)

    def get_inequalities(self):
        if not self._mat.symbolic():
            return self._back(self._realp().get_inequalities())
        m = self._mat
        d = m.col_size - 1
        if self.rep_type == RepType.INEQUALITY:
            return m.copy()
        pts = []
        for r in m._rows:
            if is_s(r[0]) or r[0] != 1:
                raise E.EngineLimit("symbolic generators with rays")
            pts.append(list(r[1:]))
        rows, lin = hull_inequalities(pts, d)
        out = Matrix(rows)
        out._cols = m.col_size
        out._lin = lin
        out.rep_type = RepType.INEQUALITY
        return out


def hull_inequalities(pts, d):
    if d == 1:
        lo, hi = pts[0][0], pts[0][0]
        for p in pts[1:]:
            if bool(p[0] < lo):
                lo = p[0]
            elif bool(p[0] > hi):
                hi = p[0]
        if bool(lo == hi):
            return [(-1 * lo, 1)], {0}
        return [(-1 * lo, 1), (hi, -1)], set()
    if d == 2:
        from .hull import hull_indices
        # distinct points
        dist = []
        for p in pts:
            if not any(bool(And(p[0] == q[0], p[1] == q[1])) for q in dist):
                dist.append(p)
        if len(dist) == 1:
            p = dist[0]
            return [(-1 * p[0], 1, 0), (-1 * p[1], 0, 1)], {0, 1}
        h = hull_indices(dist)
        hp = [dist[i] for i in h]
        if len(hp) == 2:
            (x0, y0), (x1, y1) = hp
            n = simplify_row([None, y0 - y1, x1 - x0])
            n[0] = -1 * (n[1] * x0 + n[2] * y0)
            dx, dy = x1 - x0, y1 - y0
            a = simplify_row([None, dx, dy])
            r1 = [-1 * (a[1] * x0 + a[2] * y0), a[1], a[2]]
            r2 = [a[1] * x1 + a[2] * y1, -1 * a[1], -1 * a[2]]
            return [tuple(n), tuple(r1), tuple(r2)], {0}
        rows = []
        for i in range(len(hp)):
            (x0, y0), (x1, y1) = hp[i], hp[(i + 1) % len(hp)]
            n = simplify_row([None, y0 - y1, x1 - x0])     # inward normal (ccw order)
            n[0] = -1 * (n[1] * x0 + n[2] * y0)
            rows.append(tuple(n))
        return rows, set()
    raise E.EngineLimit("symbolic convex hull in dimension > 2")


def simplify_row(r):
    """Scale a non-zero normal vector [_, a, b] by a positive factor to a simple form."""
    a, b = r[1], r[2]
    for i, j in ((1, 2), (2, 1)):
        x, y = r[i], r[j]
        if not is_s(y) and y == 0:
            s = 1 if bool(x > 0) else -1
            out = [None, 0, 0]
            out[i] = s
            return out
    if is_s(a) and is_s(b):
        k, s = E.p_canon(a.num)
        k2, s2 = E.p_canon(b.num)
        if k == k2 and a.den == b.den:
            q = F(b.num[k[0][0]]) / F(a.num[k[0][0]])
            s = 1 if bool(a > 0) else -1
            return [None, s, s * q]
    return [None, a, b]
