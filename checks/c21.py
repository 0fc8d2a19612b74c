"""Value numbering: the central-only kernel's outputs are the general kernel's outputs with host id -1,
for any values in the infall fields; so are the deterministic moments."""

from sa import arrays as A, interp as I, terms as T
from .common import *
from . import mc

MIN_OBLIGATIONS = 5


def check(c):
    gen, cen = mc.kernel(c), mc.kernel(c, cen=True)
    c.require("same number of outputs", len(gen) == len(cen), "%d and %d" % (len(gen), len(cen)))
    gen = [I.subst_value(v, {T.single_atom(V("upid")): T.const(-1)}) for v in gen]
    for nm, a, b in zip(("main-sequence parameters", "quenched parameters", "quenched fraction", "quenched flag"), cen, gen):
        c.eq(nm, a, b)
    pp, mah, h, tp, key, t = mc.inputs(c)
    fg = c.maybe(KERN + "_diffstarpop_means_covs")
    fc = c.maybe(KERN + "_diffstarpop_means_covs_cen")
    if fg is not None and fc is not None:
        a = list(c.call(fg, pp, h[0], tp, *h[2:]))
        b = list(c.call(fc, pp, h[0], tp))
        names = ("central fraction", None, "main-sequence means", "quenched means", "main-sequence covariance",
                 "quenched main-sequence covariance", "quenching covariance")
        c.require("same moments", len(a) == len(b) == len(names), "different numbers of moments")
        for nm, x, y in zip(names, b, a):
            if nm:
                c.eq("moments: " + nm, x, y)
