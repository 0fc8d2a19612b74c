"""C38: each loss is a positive constant times the mean squared difference between its prediction and its own target
(last entry of its data), the two combined losses are the sums of those losses on their own data, and the satellite
loss is the central loss as a function of the data. Predictions stand for themselves (opaque functions of parameters
and data; the two rate kernels are first shown to be one function); if the losses do not go through the three
prediction kernels, the obligations are decided on the full expressions instead, with the Monte Carlo routine and the
parameter bounds opaque."""

from fractions import Fraction

from sa import arrays as A, interp as I, terms as T
from .common import *
from .popmc import *

MIN_OBLIGATIONS = 11
CEN, SAT, MST = "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs", "mstar_kern_tobs"


def ratio(a, b):
    """the constant a / b, if it is one"""
    (ca, ma, pa), (cb, mb, pb) = T.content(a), T.content(b)
    k = Fraction(ca) / Fraction(cb)
    return k if T.equal(a, T.scale(b, k)) else None


def losses(c, u, data):
    vals = {}

    def loss(k):
        lk = "loss_" + k
        got = c.call(L + lk, u, data[k])
        vals[k] = got
        want = c.call("spec.loss.mse", c.call(L + k, u, data[k]), data[k][-1])
        c.require(lk + ": a number", A.shape_of(got) == (), where=L + lk)
        r = ratio(T.P(got), T.P(want))
        c.require(lk + ": positive constant times the mean squared difference from its target", r is not None and r > 0,
                  "the loss is %s" % ("not a constant times that" if r is None else "%s times that" % r), where=L + lk)
    for k in (MST, CEN, SAT):
        c.attempt("loss_" + k, lambda: loss(k))
    if len(vals) < 3:
        return

    def same():
        c.eq("central and satellite losses are the same function", c.call(L + "loss_" + SAT, u, data[CEN]), vals[CEN], where=L + "loss_" + SAT)

    def comb():
        c.eq("loss_combined_kern: sum of its losses on their own data", c.call(L + "loss_combined_kern", u, data[MST], data[CEN]),
             T.add(T.P(vals[MST]), T.P(vals[CEN])), where=L + "loss_combined_kern")
        c.eq("loss_combined_3loss_kern: sum of its losses on their own data",
             c.call(L + "loss_combined_3loss_kern", u, data[MST], data[CEN], data[SAT]),
             T.add(T.add(T.P(vals[MST]), T.P(vals[CEN])), T.P(vals[SAT])), where=L + "loss_combined_3loss_kern")
    c.attempt("same", same)
    c.attempt("sums", comb)


def check(c):
    summarise(c)
    summarise_hist(c)
    u = c.nt(PUP, "u.")
    data = {MST: tuple(loss_data(c, False, "m_")), CEN: tuple(loss_data(c, True, "c_")), SAT: tuple(loss_data(c, True, "s_"))}
    cen, sat = c.call(L + CEN, u, data[CEN]), c.call(L + SAT, u, data[CEN])
    c.eq("central and satellite predictions are the same function", sat, cen, where=L + SAT)
    same = c.results[-1][2]

    def fast():
        summarise_pred(c, data, {SAT: CEN} if same else {})
        try:
            losses(c, u, data)
        finally:
            unsummarise_pred(c)
    either(c, fast, lambda: losses(c, u, data))
