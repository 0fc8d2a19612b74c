"""C24: at an arbitrary flat vector, each wrapper's value is its documented loss at the parameters that vector denotes
(in the order of the parameter set's fields) and entry i of its gradient is the partial derivative of that same loss
with respect to entry i of the vector. Predictions are opaque functions of the parameters and the data; the derivative
of an expression of opaque functions is kept as a node naming that expression and the variable. Prediction wrappers
return the prediction kernel at the same parameters."""

from sa import arrays as A, interp as I, terms as T
from sa.interp import NT
from .common import *
from .popmc import *

SMALL = ()
MIN_OBLIGATIONS = 13
CEN, SAT, MST = "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs", "mstar_kern_tobs"
LOSSES = (
    ("loss_mstar_kern_tobs_grad_wrapper", "loss_mstar_kern_tobs", (MST,)),
    ("loss_mstar_ssfr_kern_tobs_grad_wrapper", "loss_mstar_ssfr_kern_tobs", (CEN,)),
    ("loss_mstar_ssfr_sat_kern_tobs_grad_wrapper", "loss_mstar_ssfr_sat_kern_tobs", (SAT,)),
    ("loss_combined_wrapper", "loss_combined_kern", (MST, CEN)),
    ("loss_combined_3loss_wrapper", "loss_combined_3loss_kern", (MST, CEN, SAT)),
)
PREDS = (("get_pred_mstar_data_wrapper", MST), ("get_pred_mstar_ssfr_data_wrapper", CEN), ("get_pred_mstar_ssfr_sat_data_wrapper", SAT))


def wrappers(c, data):
    pup = c.get(PUP)
    n = len(pup.cls.fields)
    flat = vec("flat", n)
    u = NT(pup.cls, [flat.get([i]) for i in range(n)])

    def grad(w, k, ds):
        got = c.ip.iterate(c.call(L + w, flat, *[data[d] for d in ds]), 2)
        if not c.require(w + ": value and gradient", len(got) == 2, where=L + w):
            return
        val, g = c.call("spec.loss.value_and_gradient", c.get(L + k), c.ip.getattr(pup, "_make"), flat, [data[d] for d in ds])
        c.eq(w + ": value of " + k, got[0], c.call(L + k, u, *[data[d] for d in ds]), where=L + w)
        c.eq(w + ": gradient of " + k + " in the order of the vector", got[1], g, where=L + w)

    for w, k, ds in LOSSES:
        c.attempt(w, lambda: grad(w, k, ds))
    for w, k in PREDS:
        c.attempt(w, lambda: c.eq(w + ": prediction of " + k, c.call(L + w, flat, data[k]), c.call(L + k, u, data[k]), where=L + w))


def check(c):
    summarise(c)
    summarise_hist(c)
    c.ip.partials = True
    data = {MST: tuple(loss_data(c, False, "m_")), CEN: tuple(loss_data(c, True, "c_")), SAT: tuple(loss_data(c, True, "s_"))}

    def fast():
        summarise_pred(c, data, {})
        try:
            wrappers(c, data)
        finally:
            unsummarise_pred(c)
    either(c, fast, lambda: wrappers(c, data))

    def shield(k, ds):
        n = len(c.get(PUP).cls.fields)
        u = NT(c.get(PUP).cls, [vec("flat", n).get([i]) for i in range(n)])
        unshielded(c, k + ": nothing is shielded from differentiation", L + k, ("flat",), lambda: c.call(L + k, u, *[data[d] for d in ds]))

    # a combined loss is looked at with its predictions opaque: those are looked at in full through their own losses
    for _, k, ds in LOSSES:
        if len(ds) == 1:
            c.attempt(k + ", derivative", lambda: shield(k, ds))
    summarise_pred(c, data, {})
    try:
        for _, k, ds in LOSSES:
            if len(ds) > 1:
                c.attempt(k + ", derivative", lambda: shield(k, ds))
    finally:
        unsummarise_pred(c)
