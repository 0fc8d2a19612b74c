"""Every public history equals max(floor, unfloored model value) as a term, and range analysis proves
it is never below the floor."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *
from .c01 import v_loc

MIN_OBLIGATIONS = 17


def check(c):
    n, g = dims()
    t = vec("t", n)
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}
    floor = T.P(c.get("diffstar.defaults.SFR_MIN"))
    c.require("the floor is positive", R.positive(floor, R.Env()))
    spec = c.get("spec.model.sfr")
    raw = c.get("spec.model.sfr_raw")
    env = R.Env()
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        S = "diffstar.sfh_model.calc_sfh_" + lab
        G = "diffstar.mgas_model.calc_mgas_" + lab
        one = c.nt(SP, "s."), c.nt(MP, "m.")
        w = c.call(raw, T.var("tt"), one[1], one[0], kw["lgt0"], kw["fb"])
        sub = {T.single_atom(T.var("tt")): T.var("t", i)}
        if d:
            sub.update(cols("s.", sp.cls.fields, gg))
            sub.update(cols("m.", mp.cls.fields, gg))
        w = T.subst(w, sub)
        outs = [("plain", c.call(S, sp, mp, t, **kw)),
                ("with mass", c.call(S, sp, mp, t, return_smh=True, **kw).field("sfh")),
                ("gas", c.call(G, sp, mp, t, **kw).field("sfh"))]
        for k, v in outs:
            x = v.get(([gg] if d else []) + [i])
            c.require("%s %s: never below the floor" % (lab, k), R.nonneg(T.sub(x, floor), env),
                      "the history can fall below the floor", v_loc(x))
            c.eq("%s %s: floor or model value" % (lab, k), x, T.tmax(floor, w))
    # Monte Carlo and population histories come from the same routine with the floor
    from .c20 import mc_histories

    for lab, hist in mc_histories(c):
        for fld, x, gal in hist:
            c.require("%s %s: never below the floor" % (lab, fld), R.nonneg(T.sub(x, floor), env),
                      "the history can fall below the floor", v_loc(x))
