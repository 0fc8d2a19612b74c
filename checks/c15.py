"""Range analysis of the quenched fractions with every population parameter in its declared interval and
masses, peak times and infall histories free; limits of the satellite boost long before and after infall."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from .common import *
from .c01 import v_loc
from .c03 import declared
from . import mc

MIN_OBLIGATIONS = 18


def bounded_env(c, pre="p."):
    e = R.Env()
    for k, (lo, hi) in declared(c).items():
        e.bound(V(pre + k), lo, hi)
    return e


def check(c):
    env = bounded_env(c)
    pp, mah, h, tp, key, t = mc.inputs(c)
    logmp0, upid, mu, mh, gyr = h

    def prob(lab, v):
        c.require(lab + ": at least zero", R.nonneg(v, env), "the fraction can be negative", v_loc(v))
        c.require(lab + ": at most one", R.nonneg(T.sub(T.ONE, v), env), "the fraction can exceed one", v_loc(v))

    for u, lab in ((T.const(-1), "central"), (T.const(7), "satellite")):
        r = list(c.call(KERN + "mc_diffstar_u_params_singlegal_kernel", pp, logmp0, tp, u, mu, mh, gyr, key))
        prob("kernel, %s" % lab, T.P(r[2]))
        pr = list(c.call(MC + "mc_diffstar_params_singlegal", pp, logmp0, tp, u, mu, mh, gyr, key).vals)
        prob("single galaxy, %s" % lab, T.P(pr[2]))
        sat = T.P(r[2])
    n, g = dims()
    gp = mc.call(c, "params", True)
    gv = row(gp[2], A.any_ci(1, g))
    gv = gv if isinstance(gv, T.Poly) else gv.get([])
    e2 = env
    prob("population", gv)
    r = list(c.call(KERN + "mc_diffstar_u_params_singlegal_kernel_cen", pp, logmp0, tp, key))
    prob("central-only kernel", T.P(r[2]))

    # the boost on any baseline
    q = V("q")
    env.bound(q, 0, 1)
    sp = c.nt(SATQ + "DEFAULT_SATQUENCHPOP_PARAMS", "p.")
    up = T.P(c.call(SATQ + "get_qprob_sat", sp, mu, mh, gyr, q))
    prob("boosted fraction", up)
    gain = T.sub(up, q)
    c.require("the boost never lowers the baseline", R.nonneg(gain, env), "environment can lower the fraction", v_loc(up))
    base = T.P(c.call("spec.pop.frac", pp, logmp0, tp, "sat"))
    c.require("satellites: never below the satellite baseline", R.nonneg(T.sub(sat, base), env),
              "a satellite can be less quenched than the baseline", v_loc(sat))
    eps = T.const(1) / 10**6
    early, late = env.copy(), env.copy()
    early.bound(gyr, None, -40)
    late.bound(gyr, 45, None)
    c.require("no boost long before infall", R.nonneg(T.sub(eps, gain), early),
              "the boost does not vanish long before infall", v_loc(up))
    one = {T.single_atom(V("p." + k)): T.ONE for k in
           ("lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi")}
    zero = {k: T.ZERO for k in one}
    c.require("boost saturates at a declared maximum of one", R.nonneg(T.sub(T.subst(up, one), T.sub(T.ONE, eps)), late),
              "the boost does not reach its maximum long after infall", v_loc(up))
    c.eq("no boost when the declared maxima are zero", T.subst(up, zero), q)
    for k in one:
        c.require("maximum %s takes part" % T.fmt(T.of_atom(k)), k in T.all_atoms(up), "parameter ignored")
    # the boost grows with time since infall: the derivative is non-negative
    d = T.sub(T.subst(gain, {T.single_atom(gyr): T.add(gyr, V("later"))}), gain)
    e3 = env.copy()
    e3.bound(V("later"), 0, None)
    c.require("the boost grows with time since infall", R.nonneg(d, e3), "the boost can shrink with time", v_loc(up))
