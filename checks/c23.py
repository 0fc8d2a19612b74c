"""C23: the three predictions equal the reference predictions of spec/loss.py for any parameters, any number of epochs,
galaxies, halo mass bins and targets; the Monte Carlo routine and the parameter bounds stand for themselves (what they
compute is C03-C14), the soft counts are first shown to be the sum over galaxies of the triweight weights (C25).
Predictions are non-negative multiples of counts and sum to one over the predicted bins."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from .common import *
from .popmc import *

MIN_OBLIGATIONS = 8
KERNELS = (("mstar_kern_tobs", False), ("mstar_ssfr_kern_tobs", True), ("mstar_ssfr_sat_kern_tobs", True))


def total(x):
    """sum over the last axis, at a free index of the others"""
    ix = [T.any_idx(d) for d in x.shape[:-1]]
    return T.tsum(x.shape[-1], lambda k: x.get(ix + [k]))


def check(c):
    summarise(c)
    summarise_hist(c)
    u = c.nt(PUP, "u.")
    par = c.call(BOUND, u)
    want = {}
    for ssfr, ref in ((False, "mstar_prediction"), (True, "prediction")):
        d = tuple(loss_data(c, ssfr))
        want[ssfr] = d, c.call("spec.loss." + ref, par, d)
    for f, ssfr in KERNELS:
        d, ref = want[ssfr]

        def one(f=f, d=d, ref=ref):
            got = c.call(L + f, u, d)
            c.eq(f + ": each galaxy's two histories with their own weights, at the target's epoch", got, ref, where=L + f)
            c.eq(f + ": sums to one over the predicted bins", total(got), T.ONE, where=L + f)
        c.attempt(f, one)
