"""Helpers for harnesses about hypotheses (deterministic set order, small constructors)."""
import gc
import zlib

from symx.harness import F, And, Or, Not  # noqa: F401
from symx import symcdd
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference

_N = [0, 1]


def _hash(self):
    v = self.__dict__.get("_vh")
    if v is None:
        _N[0] += 1
        v = self.__dict__["_vh"] = 10 ** 6 + _N[0] * _N[1]
    return v


def install():
    """Sets of hypotheses iterate by object address; here by order of first use (or its reverse), so that paths are
    reproducible. Equality stays identity."""
    if Hypothesis.__hash__ is not _hash:
        Hypothesis.__hash__ = _hash
        for o in gc.get_objects():
            if type(o) is Hypothesis:
                o.__dict__["_vh"] = zlib.crc32(repr((o.name, o.hypothesis_type)).encode()) % 10 ** 5
                _rehash.append(o)
        for o in gc.get_objects():
            if type(o) in (set, frozenset) and o and all(type(x) is Hypothesis for x in o) and type(o) is set:
                items = list(o)
                o.clear()
                o.update(items)
            elif type(o) is dict and o and all(type(x) is Hypothesis for x in o):
                items = list(o.items())
                o.clear()
                o.update(items)


_rehash = []


def begin(reverse=False):
    install()
    _N[0], _N[1] = 0, (-1 if reverse else 1)
    symcdd.KEEP_SYMBOLIC_NORMALS = False


def begin_any(S):
    """Both iteration orders of sets."""
    begin(S.boolean("order"))


REF = [Reference.make("A", 1990), Reference.make("B", 2001), Reference.make("C", 2010)]


def ep(k, l, ref=None, name=None):
    from exponent_pair import Exp_pair
    return Hypothesis(name or "pair", "Exponent pair", Exp_pair(k, l), "given", ref or REF[0])


def mu(s, m, ref=None):
    from bound_mu import Bound_mu
    return Hypothesis("mu", "Upper bound on mu", Bound_mu(s, m), "given", ref or REF[0])


def beta(m, c, lo, hi, ref=None, incl=(True, True), name="beta"):
    from bound_beta import Bound_beta
    from functions import Affine, Interval
    return Hypothesis(name, "Upper bound on beta", Bound_beta(Affine(m, c, Interval(lo, hi, *incl))), "given", ref or REF[0])
