"""Regions for the harnesses: trees of template polytopes, with an independent reading of the result."""
from symx.harness import F, And, Or, Not, Implies, Iff
from checks import geo
from region import Region, Region_Type


def build(S, t, tag="p"):
    """t: template name | ["U"|"D"|"I", t...] | ["C", t]  ->  (region, membership(x), polys)."""
    if isinstance(t, str):
        P, d, I, E = geo.make(S, tag, t)
        return Region.from_polytope(P), (lambda x: geo.inside(I, E, x)), [(P, d, I, E)]
    kids = [build(S, c, f"{tag}{i}_") for i, c in enumerate(t[1:])]
    regs, mems = [k[0] for k in kids], [k[1] for k in kids]
    polys = [p for k in kids for p in k[2]]
    if t[0] == "U":
        return Region.union(regs), (lambda x: Or([m(x) for m in mems])), polys
    if t[0] == "D":
        return Region.disjoint_union(regs), (lambda x: Or([m(x) for m in mems])), polys
    if t[0] == "I":
        return Region.intersect(regs), (lambda x: And([m(x) for m in mems])), polys
    return Region.complement(regs[0]), (lambda x: Not(mems[0](x))), polys


def mem(R, x):
    """Membership in the region the library returned, read off its tree."""
    t = R.region_type
    if t == Region_Type.POLYTOPE:
        return geo.mat_in(R.child, x)
    if t == Region_Type.COMPLEMENT:
        return Not(mem(R.child, x))
    kids = [mem(c, x) for c in R.child]
    return And(kids) if t == Region_Type.INTERSECT else Or(kids)


def kept(polys):
    return And([geo.unchanged(P, I, E) for P, d, I, E in polys])
