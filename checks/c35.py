"""Value numbering against the reference clipped line (no division by the slope, so slope zero included);
range lemmas on that term: never below the lower limit, above the upper limit by at most 1.4e-4 of the
span below the reference value, and within as much of the straight line between the marks one percent inside
each limit."""

from sa import interp as I, ranges as R, terms as T
from sa.check import atoms_of
from .common import *
from .c01 import v_loc

MIN_OBLIGATIONS = 10
F = "diffstar.diffstarpop.utils.smoothly_clipped_line"
CMAX = T.const(2785) / 10000  # max over z of z/(1+exp z)


def line(c, f=F, m=None):
    x, x0, y0, lo, hi = (V(k) for k in ("x", "x0", "y0", "y_lo", "y_hi"))
    return c.call(f, x, x0, y0, V("m") if m is None else m, lo, hi)


def lemma_env():
    y0, lo, hi = V("y0"), V("y_lo"), V("y_hi")
    e = R.Env()
    e.sfact(T.sub(y0, lo)).sfact(T.sub(hi, y0)).sfact(T.sub(hi, lo))
    return e


def lemmas(c, lab, f):
    """f as a function of the distance d of the straight line above the lower limit, the limits being
    0 and 1 + b and the reference value 1 (the family is affine in y, so this loses nothing)"""
    d, b, w = V("d"), V("b"), V("w")
    one = {"x": d, "x0": T.ONE, "y0": T.ONE, "m": T.ONE, "y_lo": T.ZERO, "y_hi": T.add(T.ONE, b)}
    at = lambda dd: I.subst_value(f, {T.single_atom(V(k)): T.subst(T.P(v), {T.single_atom(d): dd}) for k, v in one.items()})
    z, v = V("z"), V("v")
    k = T.const(2000)
    # lower limit: the first sigmoid's argument is z;  z*sigmoid(z) = w >= -CMAX
    t1 = paired(at(T.add(T.const(1) / 100, T.div(z, k))), z, lambda s: s, v, w)
    e = R.Env()
    e.bound(w, T.neg(CMAX), None).bound(v, 0, 1).sfact(b)
    c.require(lab + ": never below the lower limit", R.nonneg(t1, e), "the trend can fall below its lower limit")
    # upper limit: the second sigmoid's argument is z;  z*(1 - sigmoid(z)) = w <= CMAX
    hi = T.add(T.ONE, b)
    t2 = paired(at(T.add(T.sub(hi, b / 100), T.div(z, k))), z, lambda s: T.sub(T.ONE, s), v, w)
    e = R.Env()
    e.bound(w, None, CMAX).bound(v, 0, 1).sfact(b)
    c.require(lab + ": above the upper limit by at most 1.4e-4 of the lower span",
              R.nonneg(T.sub(T.add(hi, T.div(CMAX, k)), t2), e), "the trend can exceed its upper limit")
    # the straight line between the one percent marks, to 1.4e-4 of the lower span; q is the distance of
    # the line from the far mark, which fixes b
    tol, q, mark = T.div(CMAX, k), V("q"), T.const(1) / 100
    sb = lambda t, val: T.subst(t, {T.single_atom(b): T.div(T.sub(val, T.ONE), T.const(99) / 100)})
    e = R.Env()
    e.bound(w, T.neg(CMAX), None).bound(v, 0, 1).bound(q, 0, None)
    y = T.add(mark, q)  # z = k*(y - upper mark)
    t3 = paired(sb(T.sub(at(y), y), T.sub(y, T.div(z, k))), z, lambda s: s, v, w)
    c.require(lab + ": not above the straight line inside", R.nonneg(T.sub(tol, t3), e),
              "the trend rises above the straight line inside its limits")
    e = R.Env()
    e.bound(w, None, CMAX).bound(v, 0, 1).bound(q, 0, None)
    y = T.add(mark, T.div(z, k))  # z = k*(y - lower mark)
    t4 = paired(sb(T.sub(at(y), y), T.add(y, q)), z, lambda s: T.sub(T.ONE, s), v, w)
    c.require(lab + ": not below the straight line inside", R.nonneg(T.add(t4, tol), e),
              "the trend falls below the straight line inside its limits")


def paired(t, z, conv, v, w):
    """t with conv(v) for sigmoid(z) and w for the product z*v"""
    t = T.subst(t, {T.single_atom(T.sigmoid(z)): conv(v)})
    az, av = T.single_atom(z), T.single_atom(v)
    out = T.ZERO
    for m, q in t.terms.items():
        d = dict(m)
        if d.get(az, 0) >= 1 and d.get(av, 0) >= 1:
            for x in (az, av):
                d[x] -= 1
            r = w
        else:
            r = T.ONE
        for x, k in d.items():
            if k:
                r = T.mul(r, T.pow_rat(T.of_atom(x), k))
        out = T.add(out, T.scale(r, q))
    return out


def check(c):
    want = line(c, "spec.pop.clipped_line")
    got = line(c)
    c.eq("clipped line is the reference", got, want)
    # slope zero: the constant reference value's own clipped line
    T.STRICT_NAN = True
    z = c.attempt("slope zero", lambda: line(c, m=T.ZERO))
    T.STRICT_NAN = False
    if z is not None:
        c.require("slope zero is finite", finite(z), "the trend is not finite for slope zero", v_loc(z))
        c.eq("slope zero is the limit of small slopes", z, line(c, "spec.pop.clipped_line", T.ZERO))
    x0 = I.subst_value(want, {T.single_atom(V("x")): V("x0")})
    lemmas(c, "reference", want)
    lemmas(c, "library", got)


def finite(v):
    return not any(a.kind in ("nan", "inf") or (a.kind == "app" and a.args[0] in ("nan", "inf", "div0")) for a in atoms_of(v))
