"""Both time-step routines are the reference midpoint tiling (value numbering); positivity and tiling
follow from the edges; the time-averaged rate is a non-negative part of mass over the window."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *

SMALL = ({"n": 2}, {"n": 3})
MIN_OBLIGATIONS = 14
U = "diffstar.utils."


def check(c):
    n, g = dims()
    t = vec("t", n)
    want = c.call("spec.model.dt_array", t)
    a = c.call(U + "_jax_get_dt_array", t)
    b = c.call(U + "_get_dt_array", t)
    c.eq("jax time steps", a, want)
    c.eq("numpy time steps", b, want)
    # times may be given as whole numbers: the steps are not
    whole = vec("t", n, dtype="i")
    c.attempt("jax time steps of whole-number times",
              lambda: c.eq("jax time steps of whole-number times", c.call(U + "_jax_get_dt_array", whole), want))
    c.attempt("numpy time steps of whole-number times",
              lambda: c.eq("numpy time steps of whole-number times", c.call(U + "_get_dt_array", whole), want))
    half = T.const(1) / 2
    tv = lambda j: T.var("t", T.P(j))
    k = T.any_idx(T.sub(n, T.const(2)))
    last = T.sub(n, T.ONE)
    for lab, v in (("jax", a), ("numpy", b)):
        e = R.Env()
        k1, k2 = T.add(k, T.ONE), T.add(k, T.const(2))
        e.sfact(T.sub(tv(k1), tv(k))).sfact(T.sub(tv(k2), tv(k1)))
        inner = T.cval(n) is None or T.cval(n) > 2  # two times have no inner step
        not inner or c.require(lab + ": inner steps positive", R.positive(v.get([k1]), e), "a step can be negative for increasing times")
        e = R.Env()
        e.sfact(T.sub(tv(T.ONE), tv(T.ZERO)))
        c.require(lab + ": first step positive", R.positive(v.get([T.ZERO]), e), "the first step can be negative")
        e = R.Env()
        l1, l2 = T.sub(last, T.ONE), T.sub(last, T.const(2))
        e.sfact(T.sub(tv(last), tv(l1))).sfact(T.sub(tv(l1), tv(l2)))
        c.require(lab + ": last step positive", R.positive(v.get([last]), e), "the last step can be negative")
        # tiling: inner steps run from midpoint to midpoint, the first ends at the first midpoint
        not inner or c.eq(lab + ": inner steps meet", v.get([k1]), half * (tv(k2) + tv(k1)) - half * (tv(k1) + tv(k)))
        c.eq(lab + ": steps add up to the covered span", T.tsum(n, lambda j: v.get([j])),
             T.sub(T.add(T.mul(half, T.add(tv(last), tv(l1))), v.get([last])),
                   T.sub(tv(0), T.mul(half, T.sub(tv(1), tv(0))))))
    m = vec("m", n)
    w = V("w")
    f = c.call(U + "compute_fstar", t, m, w)
    i = A.any_ci(0, n)
    x = f.get([i])
    c.require("averaged rate never negative", R.nonneg(x, R.Env()), "the averaged rate can be negative")
    ref = c.call("spec.model.fstar", t, m, w)
    c.eq("averaged rate is the positive part of mass formed over the window", f, ref)
    # constant mass forms nothing; at times within one window of the start the earliest mass is the reference
    fc = I.rewrite_value(f, lambda a: V("m0") if a.kind == "var" and a.args[0] == "m" else None)
