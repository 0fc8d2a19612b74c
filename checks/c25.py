"""Value numbering of every soft-count kernel against the triweight integral and of the n-dimensional counts
against sum-of-products; range analysis (exact, Sturm) of the integral's term: zero and one at three widths,
continuous, non-decreasing, within [0,1]; additivity of bin weights as an identity of terms."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *
from .c01 import v_loc

MIN_OBLIGATIONS = 30
N = "diffstar.diffstarpop.sumstats.diffndhist."
CUML = {"counts": N + "_tw_cuml_lax_kern", "population": "diffstar.diffstarpop.utils._tw_cuml_lax_kern",
        "galaxy": "diffstar.utils.tw_cuml_jax_kern"}
BIN = {"counts": N + "_tw_bin_weight_lax_kern",
       "population": "diffstar.diffstarpop.utils._tw_bin_weight_lax_kern"}


def same(e, a, b):
    d = T.sub(a, b)
    return R.nonneg(d, e) and R.nonneg(T.neg(d), e)


def lemmas(c, lab, f, z):
    lo, mid, hi = R.Env(), R.Env(), R.Env()
    lo.bound(z, None, -3)
    mid.bound(z, -3, 3)
    hi.bound(z, 3, None)
    w = v_loc(f)
    c.require(lab + ": exactly zero three widths below", same(lo, f, T.ZERO), "the kernel is not zero below three widths", w)
    c.require(lab + ": exactly one three widths above", same(hi, f, T.ONE), "the kernel is not one above three widths", w)
    # the middle piece on the closed interval: it meets zero and one at the ends, so the kernel is continuous
    m = T.subst(f, {T.single_atom(z): T.P(z)})
    inner = restrict(f, z, mid)
    at = lambda v: T.subst(inner, {T.single_atom(z): T.const(v)})
    c.eq(lab + ": joins zero continuously", at(-3), T.ZERO)
    c.eq(lab + ": joins one continuously", at(3), T.ONE)
    c.eq(lab + ": one half at the point itself", at(0), T.const(1) / 2)
    d = T.diff(inner, T.single_atom(z))
    c.require(lab + ": non-decreasing", R.nonneg(d, mid), "the kernel can decrease", w)
    c.require(lab + ": never negative", R.nonneg(inner, mid), "the kernel can be negative", w)
    c.require(lab + ": never above one", R.nonneg(T.sub(T.ONE, inner), mid), "the kernel can exceed one", w)


def restrict(f, z, env):
    """the term on -3 < z < 3: piecewise atoms in z with their middle piece chosen"""
    def fa(a):
        if a.kind != "pw":
            return None
        base, cs, ps = a.args
        # pick the piece at z = 1/2; legal when all cuts are at |z| >= 3
        for cut in cs:
            q = [k for m, k in base.terms.items() if m]
            if len(q) != 1 or not T.is_const(T.P(cut[0])):
                return None
            zc = (T.cval(T.P(cut[0])) - base.terms.get((), 0)) / q[0]
            if abs(zc) < 3:
                return None
        s = T.subst(base, {T.single_atom(z): T.const(1) / 2})
        k = sum(1 for cut in cs if T.cval(T.P(cut[0])) < T.cval(s))
        return T.P(ps[k])
    return T.rewrite(f, fa)


def check(c):
    z, x, m, h, lo, hi, mid = (V(k) for k in ("z", "x", "m", "h", "lo", "hi", "mid"))
    lemmas(c, "triweight integral", T.P(c.call("spec.pop.tw_cuml", z)), z)
    for lab, f in CUML.items():
        r = c.private(f, x, m, h) if "._" in f else c.call(f, x, m, h)
        if r is not None:
            c.eq(lab + ": cumulative kernel is the triweight integral", r, c.call("spec.pop.tw_cuml", T.div(T.sub(x, m), h)))
            lemmas(c, lab, T.P(c.call(f, z, T.ZERO, T.ONE)), z)
    r = c.private("diffstar.kernels.quenching_kernels._jax_tw", z)
    if r is not None:
        c.eq("quenching: cumulative kernel is the triweight integral", r, c.call("spec.pop.tw_cuml", z))
        lemmas(c, "quenching", T.P(r), z)
    # bin weights: of the counts through one point, one bin and one dimension of the public routine
    weights = {k: (lambda xx, s, l, u, f=f: c.call(f, xx, s, l, u)) for k, f in BIN.items()
               if c.private(f, x, h, lo, hi) is not None}
    at11 = lambda v: A.build((1, 1), lambda i: T.P(v), "f", True)
    weights["public counts"] = lambda xx, s, l, u: c.call(N + "tw_ndhist", at11(xx), at11(s), at11(l), at11(u)).get([0])
    weights["galaxy"] = lambda xx, s, l, u: c.call("diffstar.utils.tw_bin_jax_kern", xx, s, l, u)
    for lab, w in weights.items():
        full = w(x, h, lo, hi)
        c.eq(lab + ": weight of a bin is the integral between its edges", full, ref_bin(c, lab, x, h, lo, hi))
        c.eq(lab + ": weights of adjacent bins add up", T.add(w(x, h, lo, mid), w(x, h, mid, hi)), full)
        # three widths inside the bin the weight is one, three widths outside it is zero: x = lo + h*a = hi - h*b
        a, b = V("a"), V("b")
        wl = T.P(w(T.add(lo, T.mul(h, a)), h, lo, T.add(lo, T.mul(h, T.add(a, b)))))
        e = R.Env()
        e.bound(a, 3, None).bound(b, 3, None)
        c.require(lab + ": full weight three widths inside", same(e, wl, T.ONE), "a point well inside a bin does not count fully", v_loc(wl))
        e = R.Env()
        e.bound(a, None, -3).fact(T.add(a, b)).bound(b, 3, None)
        c.require(lab + ": no weight three widths below", same(e, wl, T.ZERO), "a point well outside a bin counts", v_loc(wl))
        e = R.Env()
        e.bound(a, 3, None).bound(b, None, -3)
        c.require(lab + ": no weight three widths above", same(e, wl, T.ZERO), "a point well outside a bin counts", v_loc(wl))
    # n-dimensional counts: any number of points, bins and dimensions; and one and two dimensions explicitly
    n, nb, d = T.dim("npts"), T.dim("nbins"), T.dim("ndim")
    for lab, k in (("any dimension", d), ("one dimension", 1), ("two dimensions", 2)):
        data, sig = vec("x", n, k), vec("s", n, k)
        l, u = vec("lo", nb, k), vec("hi", nb, k)
        y = vec("y", n)
        one = A.build((n,), lambda i: T.ONE)
        c.eq("counts, " + lab, c.call(N + "tw_ndhist", data, sig, l, u), c.call("spec.pop.ndhist", data, sig, one, l, u))
        c.eq("weighted counts, " + lab, c.call(N + "tw_ndhist_weighted", data, sig, y, l, u),
             c.call("spec.pop.ndhist", data, sig, y, l, u))
        c.eq("unit weights count, " + lab, c.call(N + "tw_ndhist_weighted", data, sig, one, l, u),
             c.call(N + "tw_ndhist", data, sig, l, u))


def ref_bin(c, lab, x, h, lo, hi):
    return c.call("spec.pop.tw_bin", x, h, lo, hi) if lab != "galaxy" else \
        T.sub(c.call("spec.pop.tw_cuml", T.div(T.sub(hi, x), h)), c.call("spec.pop.tw_cuml", T.div(T.sub(lo, x), h)))
