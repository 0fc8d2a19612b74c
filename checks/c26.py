"""Value numbering: the relation is sum(w*y)/sum(w) with one and the same triweight membership w per halo and bin;
substitution: constant masses give back the constant, shifting and scaling the masses shifts and scales the
relation, and masses enter linearly (so the relation is a convex combination wherever memberships are not negative,
which C25 shows)."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 6
F = "diffstar.diffstarpop.sumstats.smhm.compute_smhm"


def check(c):
    n, e = T.dim("nhalo"), T.dim("nedges")
    mh, sm, sig, bins = vec("mh", n), vec("sm", n), vec("sig", n), vec("edge", e)
    got = c.call(F, mh, sm, sig, bins)
    c.require("one value per bin", tuple(T.P(s) for s in got.shape) == (T.sub(e, T.ONE),), "shape %s" % (got.shape,))
    c.eq("relation is the weighted mean", got, c.call("spec.pop.weighted_mean", mh, sig, sm, bins))
    k, s = V("k"), V("shift")
    const = A.build((n,), lambda i: k)
    c.eq("constant masses return the constant", c.call(F, mh, const, sig, bins), A.build(got.shape, lambda i: k))
    b = A.any_ci(0, T.sub(e, T.ONE))
    y = I.rewrite_value(got.get([b]), lambda a: T.add(T.of_atom(a), s) if a.kind == "var" and a.args[0] == "sm" else None)
    c.eq("shifting the masses shifts the relation", y, T.add(got.get([b]), s))
    y = I.rewrite_value(got.get([b]), lambda a: T.mul(T.of_atom(a), s) if a.kind == "var" and a.args[0] == "sm" else None)
    c.eq("scaling the masses scales the relation", y, T.mul(got.get([b]), s))
    # the same through the counts: numerator and denominator share the memberships
    N = "diffstar.diffstarpop.sumstats.diffndhist."
    lo = A.build((T.sub(e, T.ONE), 1), lambda ix: T.var("edge", ix[0]))
    hi = A.build((T.sub(e, T.ONE), 1), lambda ix: T.var("edge", T.add(ix[0], T.ONE)))
    col = lambda nm: A.build((n, 1), lambda ix: T.var(nm, ix[0]))
    one = A.build((n,), lambda i: T.ONE)
    num = c.call(N + "tw_ndhist_weighted", col("mh"), col("sig"), sm, lo, hi)
    den = c.call(N + "tw_ndhist_weighted", col("mh"), col("sig"), one, lo, hi)
    c.eq("ratio of the weighted and unit counts", T.mul(got.get([b]), den.get([b])), num.get([b]))
