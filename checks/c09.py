"""Value numbering: the history returned with and without stellar mass, and by the gas routine, is one
and the same term; the mass returned alongside likewise; record fields are checked by name."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 10


def check(c):
    n, g = dims()
    t = vec("t", n)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        S = "diffstar.sfh_model.calc_sfh_" + lab
        G = "diffstar.mgas_model.calc_mgas_" + lab
        plain = c.call(S, sp, mp, t, **kw)
        off = c.call(S, sp, mp, t, return_smh=False, **kw)
        both = c.call(S, sp, mp, t, return_smh=True, **kw)
        gas = c.call(G, sp, mp, t, **kw)
        shp = tuple(d) + (n,)
        c.require(lab + ": plain call returns one array", isinstance(plain, A.Arr) and len(plain.shape) == len(shp))
        c.eq(lab + ": return_smh=False", off, plain)
        c.eq(lab + ": history alongside mass", both.field("sfh"), plain)
        c.eq(lab + ": history from the gas routine", gas.field("sfh"), plain)
        c.eq(lab + ": mass from the gas routine", gas.field("smh"), both.field("smh"))
        U = "diffstar.utils.cumulative_mstar_formed" + ("_galpop" if d else "")
        c.eq(lab + ": mass is the integral of the returned history", both.field("smh"), c.call(U, t, plain))
        for f in ("sfh", "smh"):
            c.eq("%s: first fields" % lab, f in both.cls.fields and f in gas.cls.fields, True)
        c.eq(lab + ": fields", list(both.cls.fields), ["sfh", "smh"])
        c.eq(lab + ": gas fields", list(gas.cls.fields), ["sfh", "smh", "dmgash", "mgash"])
