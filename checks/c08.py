"""Value-numbering of the population routines against the single-galaxy routines: with galaxy g's
own parameters substituted, every component of the single-galaxy value must be the same value
number as component g of the population value."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 8


def check(c):
    n, g = dims()
    gg = A.any_ci(1, g)
    t = vec("t", n)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}
    sp, mp = c.nt(SP, "s."), c.nt(MP, "m.")
    spg, mpg = c.nt(SP, "s.", g), c.nt(MP, "m.", g)
    m = cols("s.", sp.cls.fields, gg)
    m.update(cols("m.", mp.cls.fields, gg))

    def pair(name, single, pop, extra):
        a = c.attempt(single, lambda: c.call(single, sp, mp, t, **kw, **extra))
        b = c.attempt(pop, lambda: c.call(pop, spg, mpg, t, **kw, **extra))
        if a is None or b is None:
            return
        c.require(name + " leading axis", leads(b, g), "an output of %s is not one row per galaxy" % pop)
        c.eq(name, row(b, gg), I.subst_value(a, m))

    S = "diffstar.sfh_model.calc_sfh_"
    pair("sfh", S + "singlegal", S + "galpop", {})
    pair("sfh and smh", S + "singlegal", S + "galpop", {"return_smh": True})
    G = "diffstar.mgas_model.calc_mgas_"
    pair("gas", G + "singlegal", G + "galpop", {})
    U = "diffstar.utils.cumulative_mstar_formed"
    sfh = A.build((g, n), lambda i: T.var("sfh", *i), "f", True)
    one = vec("sfh1", n)
    b = c.call(U + "_galpop", t, sfh)
    a = c.call(U, t, one)

    def fa(x):
        if x.kind == "var" and x.args[0] == "sfh1":
            return T.var("sfh", gg, *x.args[2:])
        return None

    c.require("mass leading axis", leads(b, g))
    c.eq("mass formed, population and single", row(b, gg), I.rewrite_value(a, fa))
