"""Lets the real sympy carry engine parameters (symbols named SYM__*).

The library keeps using the installed sympy.  Only the operations whose answer
depends on a parameter's value are redirected to the solver:
  * truth value of a relational            -> engine branch
  * Expr.equals / is_constant / is_zero    -> coefficients compared by the engine
  * solve / real_roots of a polynomial in x of degree <= 2 with symbolic
    coefficients -> exact roots (a square root is a fresh non-negative value r
    with r*r = discriminant).
Expressions without parameters take the original code path."""
from fractions import Fraction as F

import sympy
from sympy.core.relational import Relational

from . import engine as E
from .engine import SNum

PREFIX = "SYM__"


def params(e):
    return [s for s in getattr(e, "free_symbols", ()) if s.name.startswith(PREFIX)]


def others(e):
    return [s for s in getattr(e, "free_symbols", ()) if not s.name.startswith(PREFIX)]


def to_engine(e):
    """sympy expression in engine parameters only -> SNum / Fraction."""
    if isinstance(e, (SNum, int, F)):
        return e
    c = E.as_exact(e)
    if c is not None:
        return c
    if isinstance(e, sympy.Float):
        return E.as_exact(float(e))
    if e.is_Symbol:
        if not e.name.startswith(PREFIX):
            raise TypeError("expression still contains " + e.name)
        if e.name in E.CTX.tokens:
            return E.CTX.tokens[e.name]
        return SNum({((e.name[len(PREFIX):], 1),): F(1)})
    if e.is_Add:
        r = F(0)
        for a in e.args:
            r = r + to_engine(a)
        return r
    if e.is_Mul:
        n, d = e.as_numer_denom()
        if d != 1:
            dd = to_engine(d)
            if not isinstance(dd, SNum) and dd == 0:
                raise TypeError("Invalid NaN comparison")
            return to_engine(n) / dd
        r = F(1)
        for a in e.args:
            r = r * to_engine(a)
        return r
    if e.is_Pow:
        b, x = e.args
        if x.is_Integer:
            bb = to_engine(b)
            if int(x) < 0:
                try:
                    return F(1) / (bb ** (-int(x)) if not isinstance(bb, F) else bb ** -int(x))
                except ZeroDivisionError:
                    raise TypeError("Invalid NaN comparison")
            return bb ** int(x)
        if x == sympy.Rational(1, 2):
            v = to_engine(b)
            return sqrt(v)
    raise E.EngineLimit(f"sympy node {type(e).__name__}: {e}")


_sq = {}


def sqrt(v):
    if not isinstance(v, SNum):
        n, d = F(v).numerator, F(v).denominator
        import math
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return F(math.isqrt(n), math.isqrt(d))
    ctx = E.CTX
    memo = ctx.__dict__.setdefault("sqrt_memo", {})
    k = repr(v)
    if k not in memo:
        r = ctx.fresh("sqrt")
        ctx.add(r >= 0)
        ctx.assume((r * r - v) == 0)
        memo[k] = r
    return memo[k]


def coeffs_in(e, x):
    """Coefficients (highest first) of the numerator of e as a polynomial in x."""
    num, den = sympy.fraction(sympy.together(e))
    p = sympy.Poly(sympy.expand(num), x)
    cs = [to_engine(c) for c in p.all_coeffs()]
    return cs, den


def eval_poly(cs, v):
    r = F(0)
    for c in cs:
        r = r * v + c
    return r


def real_roots_of(cs):
    """Real roots (with multiplicity collapsed) of the polynomial with coefficients cs."""
    cs = list(cs)
    while cs and bool(cs[0] == 0):
        cs = cs[1:]
    if len(cs) <= 1:
        return []
    if len(cs) == 2:
        return [(-1 * cs[1]) / cs[0]]
    if len(cs) == 3:
        a, b, c = cs
        disc = b * b - 4 * a * c
        if bool(disc < 0):
            return []
        if bool(disc == 0):
            return [(-1 * b) / (2 * a)]
        r = sqrt(disc)
        x1, x2 = (-1 * b - r) / (2 * a), (-1 * b + r) / (2 * a)
        return [x1, x2] if bool(a > 0) else [x2, x1]
    if not any(isinstance(c, SNum) for c in cs):
        x = sympy.Symbol("x")
        p = sum(sympy.Rational(c.numerator, c.denominator) * x ** i for i, c in enumerate(reversed([F(c) for c in cs])))
        rts = _real_roots(sympy.Poly(p, x))
        if all(r.is_Rational for r in rts):
            return sorted({E.as_exact(r) for r in rts})
    raise E.EngineLimit("roots of a symbolic polynomial of degree > 2")


class SymRoot(SNum):
    """A root returned by the solve stand-in."""
    __slots__ = ()


_solve = sympy.solve
_real_roots = sympy.real_roots
_rel_bool = Relational.__bool__
_equals = sympy.Expr.equals
_is_constant = sympy.Expr.is_constant


def solve(f, *symbols, **flags):
    if isinstance(f, SNum):
        return []
    e = sympy.sympify(f)
    if not params(e) or (symbols and any(str(s).startswith(PREFIX) for s in symbols)):
        return _solve(f, *symbols, **flags)
    xs = others(e)
    if not xs:
        return []
    x = xs[0]
    num, den = sympy.fraction(sympy.together(e))
    p = sympy.Poly(sympy.expand(num), x)
    cs = [to_engine(c) for c in p.all_coeffs()]
    rts = real_roots_of(cs)
    # roots of the denominator are not solutions
    if others(den):
        dc, _ = coeffs_in(den, x)
        rts = [r for r in rts if not bool(eval_poly(dc, r) == 0)]
    return [sympy.Rational(r.numerator, r.denominator) if isinstance(r, F) else r for r in rts]


def real_roots(f, *a, **k):
    e = f if isinstance(f, sympy.Poly) else sympy.sympify(f)
    ex = e.as_expr() if isinstance(e, sympy.Poly) else e
    if not params(ex):
        return _real_roots(f, *a, **k)
    xs = others(ex)
    if not xs:
        return []
    cs, _ = coeffs_in(ex, xs[0])
    return real_roots_of(cs)


def rel_bool(self):
    l, r = self.args
    d = l - r
    if not params(d) and not params(l) and not params(r):
        return _rel_bool(self)
    v = to_engine(d)
    name = type(self).__name__
    rel = {"StrictLessThan": "<", "LessThan": "<=", "StrictGreaterThan": ">",
           "GreaterThan": ">=", "Equality": "==", "Unequality": "!="}[name]
    if not isinstance(v, SNum):
        return E._cmp0(v, rel)
    return bool(v._cmp(0, rel))


def equals(self, other, failing_expression=False):
    d = self - other
    if not params(d):
        return _equals(self, other, failing_expression)
    xs = others(d)
    if len(xs) > 1:
        return _equals(self, other, failing_expression)
    num, _ = sympy.fraction(sympy.together(d))
    if not xs or not num.has(xs[0]):
        v = to_engine(num)
        return bool(v == 0)
    p = sympy.Poly(sympy.expand(num), xs[0])
    return all(bool(to_engine(c) == 0) for c in p.all_coeffs())


def is_constant(self, *wrt, **flags):
    if not params(self):
        return _is_constant(self, *wrt, **flags)
    xs = others(self)
    if not xs:
        return True
    num, den = sympy.fraction(sympy.together(self))
    if others(den):
        # P/Q is constant iff P*q0 - Q*p0 vanishes for the leading coefficients
        p = sympy.Poly(sympy.expand(num), xs[0])
        q = sympy.Poly(sympy.expand(den), xs[0])
        pc, qc = [to_engine(c) for c in p.all_coeffs()], [to_engine(c) for c in q.all_coeffs()]
        n = max(len(pc), len(qc))
        pc = [F(0)] * (n - len(pc)) + pc
        qc = [F(0)] * (n - len(qc)) + qc
        return all(bool(pc[i] * qc[j] - pc[j] * qc[i] == 0) for i in range(n) for j in range(i))
    p = sympy.Poly(sympy.expand(num), xs[0])
    return all(bool(to_engine(c) == 0) for c in p.all_coeffs()[:-1])


_is_real_orig = sympy.Expr.is_real


def install():
    sympy.solve = solve
    sympy.solvers.solve = solve
    sympy.real_roots = real_roots
    sympy.polys.polytools.real_roots = real_roots
    Relational.__bool__ = rel_bool
    sympy.Expr.equals = equals
    sympy.Expr.is_constant = is_constant
