"""Stellar mass is the reference trapezoidal integral of the returned history (value numbering of the
recurrence); every increment is step times a sum of two rates, each proved positive."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 24


def check(c):
    n, g = dims()
    t = vec("t", n)
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}
    mass = c.get("spec.model.mass_formed")
    floor = T.P(c.get("diffstar.defaults.SFR_MIN"))
    birth = T.P(c.get("diffstar.defaults.T_BIRTH_MIN"))
    c.eq("birth time of the reference", birth, T.P(c.get("spec.model.T_BIRTH")))
    c.eq("floor of the reference", floor, T.P(c.get("spec.model.SFR_MIN")))
    k = T.any_idx(T.sub(n, T.ONE))
    k1 = T.add(k, T.ONE)
    half = T.const(5 * 10**8)

    def integral(lab, m, s, pre, env):
        """m: mass, s: rates, both along time (after the leading index pre)"""
        at = lambda a, j: a.get(pre + [j])
        c.eq(lab + ": first mass", at(m, T.ZERO),
             T.mul(half, T.mul(T.sub(T.var("t", T.ZERO), birth), T.add(at(s, T.ZERO), floor))))
        rates = T.add(at(s, k1), at(s, k))
        c.eq(lab + ": increment", T.sub(at(m, k1), at(m, k)),
             T.mul(half, T.mul(T.sub(T.var("t", k1), T.var("t", k)), rates)))
        c.require(lab + ": rates in the first increment positive", R.positive(T.add(at(s, T.ZERO), floor), env))
        c.require(lab + ": rates in every increment positive", R.positive(rates, env))

    env = R.Env()
    pos = R.Env()
    pos.hook = lambda a: (0, R.INF) if a.kind == "var" and a.args[0] == "sfh" else None
    y = vec("sfh", n)
    yg = A.build((g, n), lambda idx: T.var("sfh", *idx), "f", True)
    U = "diffstar.utils."
    m = c.call(U + "cumulative_mstar_formed", t, y)
    c.eq("mass of a table of rates", m, c.call(mass, t, y))
    integral("table", m, y, [], _pos())
    mg = c.call(U + "cumulative_mstar_formed_galpop", t, yg)
    sub = lambda v: I.rewrite_value(v, lambda a: T.var("sfh", gg, *a.args[2:]) if a.kind == "var" and a.args[0] == "sfh" else None)
    c.eq("population mass of tables of rates", row(mg, gg), sub(c.call(mass, t, y)))
    integral("population table", mg, yg, [gg], _pos())
    x = vec("x", n)
    c.eq("cumulative trapezoid", c.call(U + "cumtrapz", x, y), c.call("spec.model.trapz", x, y))
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        for what, r in (("history", c.call("diffstar.sfh_model.calc_sfh_" + lab, sp, mp, t, return_smh=True, **kw)),
                        ("gas", c.call("diffstar.mgas_model.calc_mgas_" + lab, sp, mp, t, **kw))):
            s, m = r.field("sfh"), r.field("smh")
            if d:
                s1 = row(s, gg)
                c.eq("%s %s: integral of the history" % (lab, what), row(m, gg), c.call(mass, t, s1))
            else:
                c.eq("%s %s: integral of the history" % (lab, what), m, c.call(mass, t, s))
            integral("%s %s" % (lab, what), m, s, [gg] if d else [], env)


def _pos():
    """tables of rates are at least the floor, hence positive"""
    from fractions import Fraction

    e = R.Env()
    e.hook = lambda a: (Fraction(1, 10**14), R.INF) if a.kind == "var" and a.args[0] == "sfh" else None
    return e
