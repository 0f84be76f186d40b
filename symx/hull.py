"""Stand-in for scipy.spatial.ConvexHull on exact / symbolic planar points.

Contract: `vertices` are the indices of the extreme points in counter-clockwise
order; fewer than three points, or points on one line, raise QhullError."""
import sys
from . import engine as E
from .engine import SNum, And


def _sym(pts):
    return any(isinstance(c, SNum) for p in pts for c in p)


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_indices(pts):
    """Counter-clockwise extreme points of distinct-or-repeated points (monotone chain)."""
    idx = list(range(len(pts)))

    def less(i, j):
        p, q = pts[i], pts[j]
        if bool(p[0] < q[0]):
            return True
        if bool(p[0] > q[0]):
            return False
        return bool(p[1] < q[1])

    order = []
    for i in idx:
        k = 0
        dup = False
        # insertion sort, dropping duplicates
        while k < len(order):
            if less(order[k], i):
                k += 1
            else:
                if not less(i, order[k]):
                    dup = True
                break
        if not dup:
            order.insert(k, i)
    if len(order) <= 2:
        return order

    def chain(seq):
        out = []
        for i in seq:
            while len(out) >= 2 and not bool(cross(pts[out[-2]], pts[out[-1]], pts[i]) > 0):
                out.pop()
            out.append(i)
        return out

    lower = chain(order)
    upper = chain(order[::-1])
    return lower[:-1] + upper[:-1]


def make(real_hull, QhullError):
    class ConvexHull:
        def __init__(self, points, *a, **k):
            pts = [list(p) for p in points]
            if not _sym(pts):
                import numpy as np
                h = real_hull(np.array([[float(c) for c in p] for p in pts]), *a, **k)
                self.points = h.points
                self.vertices = h.vertices
                self.simplices = h.simplices
                self.volume = h.volume
                self.equations = h.equations
                return
            if len(pts[0]) != 2:
                raise E.EngineLimit("symbolic hull in dimension > 2")
            h = hull_indices([[E.as_exact(c) if type(c) is float else c for c in p] for p in pts])
            if len(pts) < 3 or len(h) < 3:
                raise QhullError("QH6214 qhull input error: not enough points / flat simplex")
            self.points = points
            self.vertices = h
            self.simplices = [[h[i], h[(i + 1) % len(h)]] for i in range(len(h))]
            self.npoints = len(pts)

    return ConvexHull
