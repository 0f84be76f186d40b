"""Symbolic execution of ordinary Python code by operator overloading + z3.

SNum is an exact symbolic rational number: a quotient of multivariate polynomials
(with Fraction coefficients) in solver variables.  SBool is a formula over such
numbers.  The real code under test is run unmodified on SNum inputs; whenever it
needs the truth value of an SBool the engine asks z3 which outcomes are feasible
under the current path condition and explores every feasible one (depth-first
replay of a decision trail).  Nothing is sampled: together the explored paths cover
every value of the inputs that satisfies the harness's assumptions.
"""
import sys

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    # appended last, so that the library's own venv keeps priority
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import math
import numbers
import time
from fractions import Fraction as RealFraction

import z3

F0 = RealFraction(0)
F1 = RealFraction(1)


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption)."""


class EngineLimit(BaseException):
    """The engine cannot represent an operation: the path is inconclusive."""


class BudgetExceeded(BaseException):
    """The harness ran out of its time or path budget: inconclusive."""


# ---------------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}; monomial = tuple of (var, exp), sorted

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_const(c):
    return {(): RealFraction(c)} if c != 0 else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, F0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), F0)


def p_mul(a, b):
    if p_is_const(a):
        return p_scale(b, p_cval(a))
    if p_is_const(b):
        return p_scale(a, p_cval(b))
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            s = r.get(m, F0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    return r


def _mkey(m):
    # graded order compatible with multiplication (grlex on variable names)
    return (sum(e for _, e in m), tuple((v, e) for v, e in m))


def _lead(a):
    # lexicographic order on exponent vectors: a multiplicative monomial order
    allv = sorted({v for m in a for v, _ in m})
    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in allv)
    return max(a, key=key)


def _mono_div(a, b):
    d = dict(a)
    for v, e in b:
        if d.get(v, 0) < e:
            return None
        d[v] -= e
        if d[v] == 0:
            del d[v]
    return tuple(sorted(d.items()))


def p_divexact(a, b):
    """a / b if b divides a exactly, else None."""
    if not a:
        return {}
    if p_is_const(b):
        return p_scale(a, 1 / p_cval(b))
    allv = sorted({v for p in (a, b) for m in p for v, _ in m})
    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in allv)
    lb = max(b, key=key)
    cb = b[lb]
    q = {}
    r = a
    steps = 0
    while r:
        lr = max(r, key=key)
        m = _mono_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        r = p_sub(r, {_mono_mul(m, mb): c * x for mb, x in b.items()})
        steps += 1
        if steps > 200:
            return None
    return q


def p_canon(a):
    """(scale>0-normalised poly key, sign) so that a = positive * sign * key."""
    if not a:
        return ((), 0)
    items = sorted(a.items())
    den = 1
    for _, c in items:
        den = den * c.denominator // math.gcd(den, c.denominator)
    ints = [int(c * den) for _, c in items]
    g = 0
    for i in ints:
        g = math.gcd(g, i)
    s = 1 if ints[-1] > 0 else -1
    return (tuple((m, s * i // g) for (m, _), i in zip(items, ints)), s)


# ---------------------------------------------------------------------------

CTX = None  # the active symbolic context


def is_sym(x):
    return isinstance(x, (SNum, SBool))


_zvars = {}


def _zvar(v):
    if v not in _zvars:
        _zvars[v] = z3.Real(v)
    return _zvars[v]


_zint = {}


def _zval(c):
    r = _zint.get(c)
    if r is None:
        r = z3.RealVal(str(c))
        _zint[c] = r
    return r


def p_to_z3(a):
    if not a:
        return _zval(F0)
    terms = []
    for m, c in sorted(a.items()):
        t = None
        for v, e in m:
            for _ in range(e):
                t = _zvar(v) if t is None else t * _zvar(v)
        if t is None:
            t = _zval(c)
        elif c != 1:
            t = _zval(c) * t
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def as_exact(x):
    """Exact rational value of a concrete number, or None."""
    if isinstance(x, bool):
        return RealFraction(int(x))
    if isinstance(x, (int, RealFraction)):
        return RealFraction(x)
    if isinstance(x, float):
        if math.isfinite(x):
            return RealFraction(x)
        return None
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return RealFraction(int(x))
        if isinstance(x, np.floating):
            return RealFraction(float(x)) if math.isfinite(x) else None
    except ImportError:
        pass
    t = type(x)
    if t.__module__.startswith("sympy"):
        if getattr(x, "is_Rational", False):
            return RealFraction(int(x.p), int(x.q))
    return None


_sympy_to_snum = None  # installed by sympyx


def _coerce(x):
    if isinstance(x, SNum):
        return x
    c = as_exact(x)
    if c is not None:
        return SNum(p_const(c), None)
    return None


EXACT_FLOATS = False   # set by a check whose code under test computes with floats by design


def _lossy(o):
    # Large whole floats are sentinels: they meet SymPy constants (1000000/1 in RationalFunction), where the result stays symbolic.
    return math.isfinite(o) and not EXACT_FLOATS and not (abs(o) >= 1000 and o == int(o))


class SNum:
    """num/den, den None means 1; a non-constant den is known positive on the path."""

    __slots__ = ("num", "den")
    __array_priority__ = 1000

    def __init__(self, num, den=None):
        self.num = num
        self.den = den

    # -- helpers
    def _is_const(self):
        return self.den is None and p_is_const(self.num)

    def _c(self):
        return p_cval(self.num)

    @staticmethod
    def make(num, den=None):
        if den is not None:
            if p_is_const(den):
                num = p_scale(num, 1 / p_cval(den))
                den = None
            else:
                q = p_divexact(num, den)
                if q is not None:
                    num, den = q, None
        if den is None and p_is_const(num):
            return p_cval(num)
        return SNum(num, den)

    def z3(self):
        n = p_to_z3(self.num)
        if self.den is None:
            return n
        return n / p_to_z3(self.den)

    # -- arithmetic
    def _add(self, o):
        if self.den is None and o.den is None:
            return SNum.make(p_add(self.num, o.num))
        d1 = self.den or p_const(1)
        d2 = o.den or p_const(1)
        if d1 == d2:
            return SNum.make(p_add(self.num, o.num), d1)
        q = p_divexact(d1, d2)
        if q is not None:
            return SNum.make(p_add(self.num, p_mul(o.num, q)), d1)
        q = p_divexact(d2, d1)
        if q is not None:
            return SNum.make(p_add(p_mul(self.num, q), o.num), d2)
        return SNum.make(p_add(p_mul(self.num, d2), p_mul(o.num, d1)), p_mul(d1, d2))

    def __add__(self, o):
        if type(o) is float and _lossy(o):
            f = float(self)
            return f + o
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, float):
                return o
            return NotImplemented
        return self._add(o2)

    __radd__ = __add__

    def __neg__(self):
        return SNum(p_neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is float and _lossy(o):
            f = float(self)
            return f - o
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, float):
                return -o
            return NotImplemented
        return self._add(SNum(p_neg(o2.num), o2.den))

    def __rsub__(self, o):
        if type(o) is float and _lossy(o):
            f = float(self)
            return o - f
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, float):
                return o
            return NotImplemented
        return o2._add(SNum(p_neg(self.num), self.den))

    def __mul__(self, o):
        if type(o) is float and math.isfinite(o):
            f = float(self)
            return f * o
        o2 = _coerce(o)
        if o2 is None:
            return NotImplemented
        n = p_mul(self.num, o2.num)
        if self.den is None and o2.den is None:
            return SNum.make(n)
        d = p_mul(self.den or p_const(1), o2.den or p_const(1))
        # cheap cross-cancellation
        if self.den is not None:
            q = p_divexact(o2.num, self.den)
            if q is not None:
                return SNum.make(p_mul(self.num, q), o2.den)
        if o2.den is not None:
            q = p_divexact(self.num, o2.den)
            if q is not None:
                return SNum.make(p_mul(q, o2.num), self.den)
        return SNum.make(n, d)

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        """a / b with a, b SNum; forks on the sign of a symbolic denominator."""
        if b._is_const():
            c = b._c()
            if c == 0:
                raise ZeroDivisionError("Fraction(%s, 0)" % (a,))
            return SNum.make(p_scale(a.num, 1 / c), a.den)
        q = p_divexact(a.num, b.num) if a.den is None and b.den is None else None
        if CTX.branch(atom(b.num, "==")):
            raise ZeroDivisionError("division by a zero value")
        if q is not None:
            return SNum.make(q)
        n = p_mul(a.num, b.den) if b.den is not None else a.num
        dn = b.num
        q = p_divexact(n, dn)
        if q is not None:
            return SNum.make(q, a.den)
        if not CTX.branch(atom(dn, ">")):
            n, dn = p_neg(n), p_neg(dn)
        d = p_mul(dn, a.den) if a.den is not None else dn
        # normalise the denominator's scale
        key, s = p_canon(d)
        k = abs(d[key[0][0]] / key[0][1])
        return SNum.make(p_scale(n, 1 / k), {m: RealFraction(s * i) for m, i in key})

    def __truediv__(self, o):
        if type(o) is float and math.isfinite(o):
            f = float(self)
            return f / o
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, float) and math.isinf(o):
                return RealFraction(0)
            return NotImplemented
        return SNum._div(self, o2)

    def __rtruediv__(self, o):
        if type(o) is float and math.isfinite(o):
            f = float(self)
            return o / f
        o2 = _coerce(o)
        if o2 is None:
            return NotImplemented
        return SNum._div(o2, self)

    def __pow__(self, n):
        c = as_exact(n)
        if c is None or c.denominator != 1:
            return NotImplemented
        n = int(c)
        r = RealFraction(1)
        for _ in range(abs(n)):
            r = r * self
        if n < 0:
            return RealFraction(1) / r
        return r

    def __abs__(self):
        if CTX.branch(atom(self.num, ">=")):
            return self
        return -self

    # -- comparison
    def _cmp(self, o, rel):
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, float):
                if math.isnan(o):
                    return rel == "!="
                # +-infinity
                if rel in ("==",):
                    return False
                if rel in ("!=",):
                    return True
                return (rel in ("<", "<=")) == (o > 0)
            return NotImplemented
        if self.den is None and o2.den is None:
            n = p_sub(self.num, o2.num)
        else:
            d1 = self.den or p_const(1)
            d2 = o2.den or p_const(1)
            if d1 == d2:
                n = p_sub(self.num, o2.num)
            else:
                n = p_sub(p_mul(self.num, d2), p_mul(o2.num, d1))
        return atom(n, rel)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            return False if o is None or isinstance(o, str) else NotImplemented
        return r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        if r is NotImplemented:
            return True if o is None or isinstance(o, str) else NotImplemented
        return r

    def __hash__(self):
        return CTX.hash_of(self)

    def __bool__(self):
        return CTX.branch(atom(self.num, "!="))

    def __repr__(self):
        return f"<{p_str(self.num)}>" if self.den is None else f"<({p_str(self.num)})/({p_str(self.den)})>"

    # rendered text carries a token that maps back to the value (see CTX.token)
    def __str__(self):
        return CTX.token(self) if CTX is not None else repr(self)

    def __format__(self, spec):
        return str(self)

    def _latex(self, printer=None):
        return str(self)

    # numeric-tower attributes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return CTX.concretise(self, True).numerator

    @property
    def denominator(self):
        return CTX.concretise(self, True).denominator

    is_real = True
    is_finite = True

    def conjugate(self):
        return self

    def limit_denominator(self, *a):
        return CTX.concretise(self, True).limit_denominator(*a)

    # conversions out of the symbolic world: one fixed value (recorded)
    def __float__(self):
        return float(CTX.concretise(self, True))

    def __int__(self):
        return int(CTX.concretise(self))

    def __trunc__(self):
        return math.trunc(CTX.concretise(self))

    def __floor__(self):
        return math.floor(CTX.concretise(self))

    def __ceil__(self):
        return math.ceil(CTX.concretise(self))

    def __round__(self, n=None):
        return round(CTX.concretise(self, True), n)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic number")

    def _sympy_(self):
        import sympy
        def conv(p):
            r = sympy.Integer(0)
            for m, c in p.items():
                t = sympy.Rational(c.numerator, c.denominator)
                for v, e in m:
                    t = t * sym_symbol(v) ** e
                r = r + t
            return r
        n = conv(self.num)
        return n if self.den is None else n / conv(self.den)


numbers.Real.register(SNum)

_symcache = {}


def sym_symbol(v):
    import sympy
    if v not in _symcache:
        _symcache[v] = sympy.Symbol("SYM__" + v, real=True)
    return _symcache[v]


def p_str(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        t = "*".join(v if e == 1 else f"{v}^{e}" for v, e in m)
        out.append(str(c) if not t else (t if c == 1 else f"{c}*{t}"))
    return " + ".join(out)


# ---------------------------------------------------------------------------
# formulas

_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_SIGNS = {"<": frozenset("-"), "<=": frozenset("-0"), ">": frozenset("+"),
          ">=": frozenset("+0"), "==": frozenset("0"), "!=": frozenset("+-")}


def _cmp0(c, rel):
    return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[rel]


def atom(p, rel):
    if p_is_const(p):
        return _cmp0(p_cval(p), rel)
    key, s = p_canon(p)
    if s < 0:
        rel = _FLIP[rel]
    return SBool("atom", (key, rel))


_atomz = {}


class SBool:
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def z3(self):
        if self.op == "atom":
            r = _atomz.get(self.args)
            if r is None:
                key, rel = self.args
                # move the constant to the right-hand side
                const = 0
                terms = {}
                for m, c in key:
                    if m == ():
                        const = c
                    else:
                        terms[m] = RealFraction(c)
                l = p_to_z3(terms)
                rr = _zval(RealFraction(-const))
                r = {"<": lambda: l < rr, "<=": lambda: l <= rr, ">": lambda: l > rr,
                     ">=": lambda: l >= rr, "==": lambda: l == rr, "!=": lambda: l != rr}[rel]()
                if len(_atomz) > 200000:
                    _atomz.clear()
                _atomz[self.args] = r
            return r
        if self.op == "and":
            return z3.And([to_z3(a) for a in self.args])
        if self.op == "or":
            return z3.Or([to_z3(a) for a in self.args])
        if self.op == "not":
            return z3.Not(to_z3(self.args[0]))
        if self.op == "z3":
            return self.args[0]
        raise AssertionError(self.op)

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return Iff(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return Not(Iff(self, o))
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        if self.op == "atom":
            key, rel = self.args
            return f"[{p_str({m: RealFraction(c) for m, c in key})} {rel} 0]"
        return f"{self.op}({', '.join(map(repr, self.args))})"

    # bools behave as ints in arithmetic (e.g. sum of conditions)
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__


def to_z3(a):
    if isinstance(a, SBool):
        return a.z3()
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, SNum):
        return atom(a.num, "!=").z3()
    try:
        import numpy as np
        if isinstance(a, np.bool_):
            return z3.BoolVal(bool(a))
    except ImportError:
        pass
    if z3.is_expr(a):
        return a
    raise TypeError(f"not a formula: {a!r}")


def _flat(args):
    out = []
    for a in args:
        if isinstance(a, (list, tuple)) or hasattr(a, "__next__"):
            out.extend(_flat(a))
        else:
            if z3.is_expr(a):
                a = SBool("z3", (a,))
            elif not isinstance(a, SBool):
                a = bool(a) if not isinstance(a, SNum) else atom(a.num, "!=")
            out.append(a)
    return out


def And(*args):
    out = []
    for a in _flat(args):
        if a is False:
            return False
        if a is True:
            continue
        out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool("and", tuple(out))


def Or(*args):
    out = []
    for a in _flat(args):
        if a is True:
            return True
        if a is False:
            continue
        out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool("or", tuple(out))


def Not(a):
    (a,) = _flat([a])
    if isinstance(a, bool):
        return not a
    if a.op == "atom":
        key, rel = a.args
        return SBool("atom", (key, _NEG[rel]))
    if a.op == "not":
        return a.args[0]
    return SBool("not", (a,))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    (a, b) = _flat([a, b])
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return SBool("z3", (a.z3() == b.z3(),))


# ---------------------------------------------------------------------------
# the exploration context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.decisions = 0
        self.proved = 0
        self.unknown_branches = 0
        self.concretised = 0
        self.cvc5 = 0

    def as_dict(self):
        return dict(self.__dict__)


class Context:
    def __init__(self, trail, stats, deadline, hash_consts=(), query_ms=8000):
        self.trail = trail          # list of [taken, other_feasible]
        self.pos = 0
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.query_ms = query_ms
        self.conds = []
        self.signs = {}
        self.known = {}
        self.hash_classes = []
        self.hash_memo = {}
        self.hash_consts = list(hash_consts)
        self.fresh_n = 0
        self.model = None           # a model of the path condition, if known
        self.concretised = []
        self.tokens = {}
        self.token_of = {}

    # -- solver access
    def _check(self, *extra):
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget of the harness")
        self.stats.queries += 1
        t = time.time()
        self._src = self.solver
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._second_opinion(extra)
        self.stats.solver_time += time.time() - t
        return r

    def _second_opinion(self, extra):
        self._src = None
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.query_ms * 2)
        s.add(self.conds)
        s.add(list(extra))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r != z3.unknown:
            self._src = s
            return r
        return self._cvc5(list(extra))

    def _cvc5(self, extra):
        import subprocess
        import tempfile
        s = z3.Solver()
        s.add(self.conds)
        s.add(extra)
        txt = "(set-logic QF_NRA)\n" + s.to_smt2()
        self.stats.cvc5 += 1
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % (2 * self.query_ms), "-"],
                               input=txt, capture_output=True, text=True,
                               timeout=self.query_ms / 500 + 5)
        except Exception:
            return z3.unknown
        out = p.stdout.strip().splitlines()
        if "(error" in p.stdout or not out:
            return z3.unknown
        return {"sat": z3.sat, "unsat": z3.unsat}.get(out[0], z3.unknown)

    def add(self, cond):
        """Add a constraint to the path condition (no feasibility check)."""
        if cond is True:
            return
        self._note(cond)
        e = to_z3(cond)
        self.conds.append(e)
        self.solver.add(e)
        self.model = None

    def _note(self, cond):
        # remember signs of normalised polynomials
        if isinstance(cond, SBool):
            if cond.op == "atom":
                key, rel = cond.args
                self.signs[key] = self.signs.get(key, frozenset("-0+")) & _SIGNS[rel]
            elif cond.op == "and":
                for a in cond.args:
                    self._note(a)

    def _quick(self, cond):
        if isinstance(cond, bool):
            return cond
        if cond.op == "atom":
            key, rel = cond.args
            s = self.signs.get(key)
            if s is not None:
                if s <= _SIGNS[rel]:
                    return True
                if not (s & _SIGNS[rel]):
                    return False
            return None
        if cond.op == "not":
            r = self._quick(cond.args[0])
            return None if r is None else not r
        if cond.op == "and":
            res = True
            for a in cond.args:
                r = self._quick(a)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if cond.op == "or":
            res = False
            for a in cond.args:
                r = self._quick(a)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        return None

    def _model_val(self, cond_z3):
        if self.model is None:
            return None
        try:
            v = self.model.eval(cond_z3, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        q = self._quick(cond)
        if q is not None:
            return q
        if self.pos < len(self.trail):
            taken = self.trail[self.pos][0]
            self.pos += 1
            self.add(cond if taken else Not(cond))
            return taken
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget of the harness")
        cz = to_z3(cond)
        hint = self._model_val(cz)
        m = None
        if hint is True:
            t_ok = z3.sat
            keep = self.model
        else:
            t_ok = self._check(cz)
            keep = self._get_model() if t_ok == z3.sat else None
        if t_ok == z3.unsat:
            f_ok = z3.sat          # the path condition itself is satisfiable
            keepf = self.model
        elif hint is False:
            f_ok = z3.sat
            keepf = self.model
        else:
            f_ok = self._check(z3.Not(cz))
            keepf = self._get_model() if f_ok == z3.sat else None
        if t_ok == z3.unknown or f_ok == z3.unknown:
            self.stats.unknown_branches += 1
        can_t = t_ok != z3.unsat
        can_f = f_ok != z3.unsat
        taken = can_t
        self.trail.append([taken, can_t and can_f])
        self.pos += 1
        if can_t and can_f:
            self.stats.decisions += 1
        self.add(cond if taken else Not(cond))
        self.model = keep if taken else keepf
        return taken

    def _get_model(self):
        if self._src is None:
            return None
        try:
            return self._src.model()
        except z3.Z3Exception:
            return None

    def assume(self, cond):
        q = self._quick(cond)
        if q is True:
            return
        if q is False:
            raise PathAbort()
        self.add(cond)
        if self.pos >= len(self.trail):
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            self.model = self._get_model() if r == z3.sat else None

    def fresh(self, name):
        self.fresh_n += 1
        return SNum({((f"{name}!{self.fresh_n}", 1),): F1})

    def token(self, s):
        k = repr(s)
        if k not in self.token_of:
            self.token_of[k] = f"SYM__T_{len(self.tokens)}_"
            self.tokens[self.token_of[k]] = s
        return self.token_of[k]

    def hash_of(self, s):
        k = (p_canon(s.num), tuple(sorted(s.num.items())), None if s.den is None else tuple(sorted(s.den.items())))
        if k in self.hash_memo:
            return self.hash_memo[k]
        for c in self.hash_consts:
            if s == c:
                h = hash(c)
                break
        else:
            for rep, h in self.hash_classes:
                if s == rep:
                    break
            else:
                h = hash(("sym", len(self.hash_classes)))
                self.hash_classes.append((s, h))
        self.hash_memo[k] = h
        return h

    def concretise(self, s, awkward=False):
        """Pin a symbolic number to one model value (recorded: not exhaustive). With awkward, to one that has no exact
        floating-point value and a large denominator if the path has one, so that a loss of precision shows."""
        self.stats.concretised += 1
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            self.concretised.append((repr(s), str(v)))
            self.add(s == v)
            return v
        if self.model is None:
            if self._check() != z3.sat:
                raise PathAbort()
            self.model = self._get_model()
        v = model_value(self.model, s) if self.model is not None else None
        if v is None:
            raise EngineLimit("irrational value in concretisation")
        if awkward:
            for d in AWKWARD:
                w = v + d
                if self._check(to_z3(s == w)) == z3.sat:
                    v = w
                    break
        self.trail.append([v, False])
        self.pos += 1
        self.concretised.append((repr(s), str(v)))
        self.add(s == v)
        return v

    def prove(self, cond):
        """('proved'|'cex'|'unknown', model) for cond under the path condition."""
        q = self._quick(cond)
        if q is True:
            self.stats.proved += 1
            return "proved", None
        nz = z3.Not(to_z3(cond)) if q is None else z3.BoolVal(True)
        r = self._check(nz)
        if r == z3.unsat:
            self.stats.proved += 1
            return "proved", None
        if r == z3.sat:
            return "cex", self._get_model()
        return "unknown", None


AWKWARD = (RealFraction(1, 3000017), RealFraction(-1, 3000017), RealFraction(1, 10 ** 15 + 37), RealFraction(-1, 10 ** 15 + 37))


def model_value(model, s):
    v = model.eval(s.z3(), model_completion=True)
    return zval_to_fraction(v)


def zval_to_fraction(v):
    if z3.is_rational_value(v):
        return RealFraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return RealFraction(v.as_long())
    return None
