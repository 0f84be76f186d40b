"""Harness sessions: the same harness function runs symbolically and concretely.

A harness is a function h(S, **cfg).  It obtains inputs from S (symbolic reals in a
symbolic session, exact rationals in a concrete one), drives the real library and
states the property with S.check.  `explore` runs it over every feasible path.
"""
import time
import traceback
from fractions import Fraction

from . import engine as E
from .engine import And, Iff, Implies, Not, Or  # noqa: F401  (used by harnesses)
from .sstr import SStr

F = Fraction


class Skip(BaseException):
    """Concrete replay: the inputs do not satisfy the harness's assumptions."""


def isnum(x):
    return isinstance(x, E.SNum) or E.as_exact(x) is not None


def norm_obs(v):
    """Observation in a comparable form (concrete side)."""
    if v is None or isinstance(v, (str, bool)):
        return v if not isinstance(v, bool) else ("T" if v else "F")
    c = E.as_exact(v)
    if c is not None:
        return str(c)
    if isinstance(v, (list, tuple)):
        return [norm_obs(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm_obs(x) for x in v), key=repr)
    if isinstance(v, dict):
        return sorted(([norm_obs(k), norm_obs(x)] for k, x in v.items()), key=repr)
    return str(v)


class Session:
    sym = False
    cur = None
    fresh = 0

    # shorthands shared by both modes
    def point(self, d):
        """A further point of dimension d, of which nothing is assumed."""
        self.fresh += 1
        return [self.real(f"pt{self.fresh}.{i}") for i in range(d)]

    def reals(self, names, **kw):
        if isinstance(names, str):
            names = names.split()
        return [self.real(n, **kw) for n in names]

    def _bounds(self, v, lo, hi, lo_open, hi_open):
        if lo is not None:
            self.assume(v > lo if lo_open else v >= lo)
        if hi is not None:
            self.assume(v < hi if hi_open else v <= hi)


class SymSession(Session):
    sym = True

    def __init__(self, ctx, listed):
        Session.cur = self
        self.ctx = ctx
        self.listed = listed        # known-finding ids
        self.inputs = {}
        self.choices = {}
        self.obs = []
        self.viols = []             # candidate counterexamples
        self.known_hits = []
        self.unknown = []
        self.covers = {}
        self.exc_known = []
        self.checked = set()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = E.SNum({((name, 1),): F(1)})
        self.inputs[name] = v
        self._bounds(v, lo, hi, lo_open, hi_open)
        return v

    def choice(self, name, options):
        """A symbolic index over a finite list of options."""
        v = E.SNum({((name, 1),): F(1)})
        self.inputs[name] = v
        self.ctx.assume(Or([v == i for i in range(len(options))]))
        for i in range(len(options) - 1):
            if bool(v == i):
                return options[i]
        self.ctx.add(v == len(options) - 1)
        return options[-1]

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def boolean(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if cond is False or cond is None:
            raise E.PathAbort()
        if cond is True:
            return
        self.ctx.assume(cond)

    def observe(self, name, value):
        self.obs.append((name, value))

    def expect_exc(self, kf, types, formula=True):
        """Exceptions of these types inside `formula` belong to known finding kf."""
        if kf in self.listed:
            self.exc_known.append((kf, types, formula))

    def cover(self, name, cond=True):
        if self.covers.get(name):
            return
        if cond is True:
            self.covers[name] = True
        elif cond is False:
            self.covers.setdefault(name, False)
        else:
            self.covers[name] = self.ctx._check(E.to_z3(cond)) == E.z3.sat

    def check(self, cond, label, known=()):
        """The property: cond must hold for every value on this path."""
        self.checked.add(label)
        (cond,) = E._flat([cond])
        for kf, formula in known:
            if kf not in self.listed:
                continue
            (formula,) = E._flat([formula])
            if formula is False:
                continue
            bad = And(Not(cond), formula)
            if bad is not False and kf not in {k[0] for k in self.known_hits}:
                r, m = self.ctx.prove(Not(bad))
                if r == "cex":
                    self.known_hits.append((kf, label, self._inputs(And(Not(cond), formula))))
            cond = Or(cond, formula)
        r, _ = self.ctx.prove(cond)
        if r == "proved":
            return
        if r == "unknown":
            self.unknown.append((label, self._inputs(True)))
            return
        self.viols.append((label, self._inputs(Not(cond)), ""))
        self.ctx.stats.proved += 0
        self.ctx.assume(cond)

    def fail(self, label, known=()):
        self.check(False, label, known)

    def _inputs(self, extra):
        """Rational input values satisfying the path condition and extra (or None)."""
        s = E.z3.Solver()
        s.set("timeout", self.ctx.query_ms)
        s.add(self.ctx.conds)
        if extra is not True:
            s.add(E.to_z3(extra))
        if s.check() != E.z3.sat:
            s2 = E.z3.SolverFor("QF_NRA")
            s2.set("timeout", 3 * self.ctx.query_ms)
            s2.add(s.assertions())
            s = s2
            if s.check() != E.z3.sat:
                return None
        m = s.model()
        vals = {n: m.eval(v.z3(), model_completion=True) for n, v in self.inputs.items()}
        if all(E.zval_to_fraction(v) is not None for v in vals.values()):
            return {n: str(E.zval_to_fraction(v)) for n, v in vals.items()}
        # irrational model values: fix rational approximations one variable at a time
        out = {}
        for n, v in self.inputs.items():
            cur = m.eval(v.z3(), model_completion=True)
            q = E.zval_to_fraction(cur)
            cands = [q] if q is not None else []
            if q is None and E.z3.is_algebraic_value(cur):
                for prec in (2, 5, 10, 20):
                    a = E.zval_to_fraction(cur.approx(prec))
                    eps = F(1, 10 ** prec)
                    cands += [a, a - eps, a + eps]
            for c in cands:
                s.push()
                s.add(v.z3() == E._zval(c))
                if s.check() == E.z3.sat:
                    out[n] = str(c)
                    m = s.model()
                    break
                s.pop()
            else:
                return None
        return out

    def eval_obs(self, inputs):
        """Observations under the given inputs (needs a model that fixes them)."""
        s = E.z3.Solver()
        s.set("timeout", self.ctx.query_ms)
        s.add(self.ctx.conds)
        for n, v in inputs.items():
            s.add(self.inputs[n].z3() == E._zval(F(v)))
        if s.check() != E.z3.sat:
            return None
        m = s.model()

        def conv(v):
            if isinstance(v, E.SNum):
                q = E.model_value(m, v)
                return "?" if q is None else str(q)
            if isinstance(v, E.SBool):
                return "T" if E.z3.is_true(m.eval(v.z3(), model_completion=True)) else "F"
            if isinstance(v, SStr):
                return v.in_model(m)
            if isinstance(v, (list, tuple)):
                return [conv(x) for x in v]
            if isinstance(v, (set, frozenset)):
                return sorted((conv(x) for x in v), key=repr)
            if isinstance(v, dict):
                return sorted(([conv(k), conv(x)] for k, x in v.items()), key=repr)
            return norm_obs(v)
        return [[n, conv(v)] for n, v in self.obs]


class ConcreteSession(Session):
    sym = False

    def __init__(self, inputs, listed=()):
        Session.cur = self
        self.vals = {k: F(v) for k, v in inputs.items()}
        self.listed = listed
        self.obs = []
        self.viols = []
        self.known_hits = []
        self.exc_known = []
        self.ctx = None

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.vals.get(name, F(0))
        self._bounds(v, lo, hi, lo_open, hi_open)
        return v

    def choice(self, name, options):
        i = self.vals.get(name, F(0))
        if i.denominator != 1 or not 0 <= i < len(options):
            raise Skip()
        return options[int(i)]

    int = SymSession.int
    boolean = SymSession.boolean

    def assume(self, cond):
        if not cond:
            raise Skip()

    def observe(self, name, value):
        self.obs.append([name, norm_obs(value)])

    def expect_exc(self, kf, types, formula=True):
        if kf in self.listed and formula:
            self.exc_known.append((kf, types, True))

    def cover(self, name, cond=True):
        pass

    def check(self, cond, label, known=()):
        if bool(cond):
            return
        for kf, formula in known:
            if kf in self.listed and formula:
                self.known_hits.append((kf, label))
                return
        self.viols.append((label, ""))

    def fail(self, label, known=()):
        self.check(False, label, known)


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = f"{last.filename.rsplit('/', 1)[-1]}:{last.lineno}" if last else "?"
    return f"{type(e).__name__}: {str(e)[:160]} at {where}"


def run_concrete(fn, cfg, inputs, listed=()):
    S = ConcreteSession(inputs, listed)
    E.CTX = None
    try:
        fn(S, **cfg)
    except Skip:
        return {"skip": True, "viols": [], "obs": S.obs, "known": S.known_hits}
    except Exception as e:  # noqa: BLE001
        for kf, types, _ in S.exc_known:
            if isinstance(e, types):
                S.known_hits.append((kf, "exception " + type(e).__name__))
                break
        else:
            S.viols.append(("exception " + type(e).__name__, exc_text(e)))
    return {"skip": False, "viols": S.viols, "obs": S.obs, "known": S.known_hits}


class Result:
    """What the exploration of one (harness, cfg) task covered."""

    def __init__(self):
        self.paths = 0              # completed paths
        self.aborted = 0            # paths cut by an infeasible assumption
        self.incomplete = []        # reasons of inconclusive paths
        self.pinned = 0
        self.exhausted = False
        self.viols = []             # (label, inputs, detail)
        self.known = []
        self.samples = []           # (inputs, obs)
        self.covers = {}
        self.labels = set()
        self.stats = E.Stats()
        self.wall = 0.0


def explore(fn, cfg, listed, budget_s=120.0, max_paths=200000, samples=3,
            hash_consts=(), query_ms=6000, stop_after=3, on_viol=None):
    R = Result()
    t0 = time.time()
    deadline = t0 + budget_s
    trail = []
    nsample = 0
    while True:
        ctx = E.Context(trail, R.stats, deadline, hash_consts, query_ms)
        E.CTX = ctx
        S = SymSession(ctx, listed)
        S.covers = R.covers
        done = True
        try:
            fn(S, **cfg)
        except E.PathAbort:
            R.aborted += 1
            done = False
        except E.EngineLimit as e:
            R.incomplete.append((f"engine limit: {e}", _safe_inputs(S)))
            done = False
        except E.BudgetExceeded:
            R.incomplete.append(("time budget", None))
            _merge(R, S)
            R.wall = time.time() - t0
            return R
        except RecursionError as e:
            R.incomplete.append((f"recursion limit: {exc_text(e)}", _safe_inputs(S)))
            done = False
        except Exception as e:  # noqa: BLE001
            _exception(S, e)
        _merge(R, S)
        if done:
            R.paths += 1
            R.stats.paths += 1
            if ctx.concretised:
                R.pinned += 1
            # a spread-out sample of completed paths is replayed on the real code
            if nsample < samples and _pick(R.paths):
                inp = _safe_inputs(S)
                if inp is not None:
                    ob = S.eval_obs(inp)
                    if ob is not None:
                        R.samples.append((inp, ob))
                        nsample += 1
        if on_viol is not None and S.viols:
            new = R.viols[len(R.viols) - len(S.viols):]
            del R.viols[len(R.viols) - len(S.viols):]
            for v in new:
                bad = on_viol(v)
                if bad is None:
                    R.viols.append(v)
                else:
                    R.incomplete.append((f"counterexample not reproduced ({v[0]} {v[2]}): {bad}", v[1]))
        if len(R.viols) >= stop_after:
            break
        while trail and not trail[-1][1]:
            trail.pop()
        if not trail:
            R.exhausted = True
            break
        trail[-1] = [not trail[-1][0], False]
        if R.paths + R.aborted + len(R.incomplete) >= max_paths:
            R.incomplete.append(("path budget", None))
            break
        if len(R.incomplete) > 400:
            break
    R.wall = time.time() - t0
    return R


def _pick(n):
    # 1, 2, 4, 8, ...: early and deep paths
    return n & (n - 1) == 0


def _safe_inputs(S):
    try:
        return S._inputs(True)
    except (E.z3.Z3Exception, E.BudgetExceeded):
        return None


def _exception(S, e):
    txt = exc_text(e)
    remaining = True
    for kf, types, formula in S.exc_known:
        if isinstance(e, types):
            (formula,) = E._flat([formula])
            try:
                r, _ = S.ctx.prove(Not(And(remaining, formula)))
                if r == "cex":
                    S.known_hits.append((kf, "exception " + type(e).__name__,
                                         S._inputs(And(remaining, formula))))
                remaining = And(remaining, Not(formula))
            except E.BudgetExceeded:
                return
    try:
        if remaining is False:
            return
        r, _ = S.ctx.prove(Not(remaining))
        if r != "proved":
            S.viols.append(("exception " + type(e).__name__, S._inputs(remaining), txt))
    except E.BudgetExceeded:
        pass


def _merge(R, S):
    R.viols.extend(S.viols)
    have = {(k[0], k[1]) for k in R.known}
    for k in S.known_hits:
        if (k[0], k[1]) not in have:
            R.known.append(k)
            have.add((k[0], k[1]))
    for u in S.unknown:
        R.incomplete.append((f"solver unknown at {u[0]}", u[1]))
    R.labels |= S.checked
