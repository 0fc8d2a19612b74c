"""Value numbering: the histories a Monte Carlo call returns are the terms calc_sfh builds from the
parameter sets returned in the same call and the caller's halo, times, present-day age and fb."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *
from . import mc

MIN_OBLIGATIONS = 10


def mc_histories(c):
    n, g = dims()
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    for lab, pop in (("singlegal", False), ("galpop", True)):
        r = mc.call(c, "sfh", pop)
        yield "Monte Carlo " + lab, [(k, v.get(([gg] if pop else []) + [i]), pop)
                                     for k, v in (("sfh_ms", r[2]), ("sfh_q", r[3]))]


def check(c):
    n, g = dims()
    for lab, pop in (("singlegal", False), ("galpop", True)):
        pp, mah, h, tp, key, t = mc.inputs(c, pop)
        name = MC + "mc_diffstar_sfh_" + lab
        r = c.call(name, pp, mah, *h, key, t, lgt0=V("lgt0"), fb=V("fb"))
        c.eq(lab + ": fields", list(r.cls.fields),
             ["diffstar_params_ms", "diffstar_params_q", "sfh_ms", "sfh_q", "frac_q", "mc_is_q"])
        S = "diffstar.sfh_model.calc_sfh_" + lab
        for s in ("ms", "q"):
            p = r.field("diffstar_params_" + s)
            c.eq("%s %s: parameter names" % (lab, s), list(p.cls.fields), list(c.get(SP).cls.fields))
            want = c.call(S, p, mah, t, lgt0=V("lgt0"), fb=V("fb"))
            c.eq("%s: sfh_%s is the history of diffstar_params_%s" % (lab, s, s), r.field("sfh_" + s), want)
        # the parameters come from the parameter routine for the same inputs
        q = mc.call(c, "params", pop)
        c.eq(lab + ": parameters and flags", [r.field(k) for k in ("diffstar_params_ms", "diffstar_params_q", "frac_q", "mc_is_q")], q)
        u = mc.call(c, "u_params", pop)
        B = MC + "get_bounded_diffstar_params_galpop" if pop else "diffstar.defaults.get_bounded_diffstar_params"
        c.eq(lab + ": bounded parameters are the image of the unbounded draw", q[:2], [c.call(B, u[0]), c.call(B, u[1])])
        c.eq(lab + ": fraction and flag", q[2:], u[2:])
