"""Symbolic Monte Carlo inputs and results."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *

HALO = ("logmp0", "upid", "lgmu_infall", "logmhost_infall", "gyr_since_infall")


def inputs(c, pop=False, tpeak=False):
    n, g = dims()
    d = (g,) if pop else ()
    h = [vec(x, *d, dtype="i" if x == "upid" else "f") if d else V(x) for x in HALO]
    tp = vec("m.t_peak", *d) if d else V("m.t_peak")
    return c.nt(PP, "p."), c.nt(MP, "m.", *d), h, tp, V("key"), vec("t", n)


def call(c, kind, pop):
    """kind: sfh | params | u_params ; returns a plain list of components with field names"""
    pp, mah, h, tp, key, t = inputs(c, pop)
    name = MC + "mc_diffstar_%s_%s" % (kind, "galpop" if pop else "singlegal")
    if kind == "sfh":
        r = c.call(name, pp, mah, *h, key, t, lgt0=V("lgt0"), fb=V("fb"))
    else:
        r = c.call(name, pp, h[0], tp, *h[1:], key)
    return list(r.vals) if isinstance(r, I.NT) else list(r)


def kernel(c, cen=False):
    pp, mah, h, tp, key, t = inputs(c)
    if cen:
        return list(c.call(KERN + "mc_diffstar_u_params_singlegal_kernel_cen", pp, h[0], tp, key))
    return list(c.call(KERN + "mc_diffstar_u_params_singlegal_kernel", pp, h[0], tp, *h[1:], key))


def single_to_pop(gg, key=None):
    """substitution taking the single-galaxy symbols to those of galaxy gg with its own sub-key"""
    m = scalars(HALO, gg)
    m.update(cols("m.", ("logm0", "logtc", "early_index", "late_index", "t_peak"), gg))
    if key is not None:
        m[T.single_atom(V("key"))] = key
    return m
