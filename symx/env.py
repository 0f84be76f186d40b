"""Imports the library under test, either with the solver stand-ins or unmodified."""
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "blueprint", "src", "python")

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/vp/mpl")


def _stub_matplotlib():
    """Plotting is outside every property: an inert module stands in for it."""
    class Inert(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: None
    m = Inert("matplotlib")
    m.__path__ = []
    p = Inert("matplotlib.pyplot")
    m.pyplot = p
    sys.modules["matplotlib"] = m
    sys.modules["matplotlib.pyplot"] = p


def _path():
    if LIB not in sys.path:
        sys.path.insert(0, LIB)


def setup_concrete():
    _stub_matplotlib()
    _path()


_done = False


def setup_symbolic():
    global _done
    if _done:
        return
    _done = True
    _stub_matplotlib()
    import fractions
    import numpy  # noqa: F401  (before Fraction is replaced)
    import scipy.spatial
    import scipy.spatial._qhull as qh
    import sympy  # noqa: F401
    from . import engine as E
    from . import hull, symcdd, sympyx

    Real = fractions.Fraction

    class Meta(type(Real)):
        def __instancecheck__(cls, x):
            return Real in type(x).__mro__

        def __subclasscheck__(cls, c):
            return Real in getattr(c, "__mro__", ())

    class Fraction(Real, metaclass=Meta):
        """Fraction constructor that accepts symbolic arguments."""
        __slots__ = ()

        def __new__(cls, numerator=0, denominator=None):
            if isinstance(numerator, E.SNum) or isinstance(denominator, E.SNum):
                if denominator is None:
                    return numerator
                return numerator / denominator
            if isinstance(numerator, E.SBool) or isinstance(denominator, E.SBool):
                numerator = int(numerator)
            return Real(numerator, denominator)

        @classmethod
        def from_float(cls, f):
            return Real.from_float(f)

    proxy = types.ModuleType("fractions")
    proxy.__dict__.update(fractions.__dict__)
    proxy.Fraction = Fraction
    sys.modules["fractions"] = proxy
    sys.modules["cdd"] = symcdd
    H = hull.make(scipy.spatial.ConvexHull, qh.QhullError)
    scipy.spatial.ConvexHull = H
    sympyx.install()
    _path()
