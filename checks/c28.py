"""C28: the problem diffstar_fitter hands to the restarting optimiser, on symbolic inputs. Its loss at a free parameter
vector equals the reference misfit of spec/fit.py written in terms of the input history, halo, cuts and cosmology, so
producer and consumer agree on every quantity; its start is the unbounded form of the documented guess, which lies
inside the declared bounds for every halo mass; its widths are positive; what is returned is the bounded form of the
best vector, its loss and its status. Weights equal the reference for any history and are positive. Rates and masses
of the model galaxy, mass formed and averaged rate stand for themselves after being shown to be the reference ones."""

from fractions import Fraction

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.interp import NT
from .common import *
from .fitmc import *

MIN_OBLIGATIONS = 24


def check(c):
    summarise_integrals(c)
    w = FH + "get_weights"
    n = T.dim("n")
    args = (vec("t", n), vec("logm", n), vec("logf", n), V("delay"), V("dlogm_cut"), V("t_min"), V("mass_min"))

    def weights():
        got = c.call(w, *args)
        c.eq("inverse weights", got, c.call("spec.fit.weights", *args), where=w)
        for lab, x in zip(("mass", "averaged rate"), c.ip.iterate(got, 2)):
            v = x.get([A.any_ci(0, n)])
            c.require(lab + ": weights positive", R.positive(v, R.Env()), "a weight can be zero or negative", where=w)
    c.attempt("get_weights", weights)

    summarise_model(c)
    f = Fit(c)
    p, terms = f.terms(c)
    loss = c.call(f.args["loss_func"], f.u, f.args["loss_data"])
    want = T.ZERO
    for x in terms:
        want = T.add(want, T.P(x))
    c.eq("loss of the fitted history against the input history", loss, want, where=FH + "diffstar_fitter")

    # starting point
    logm = c.call("diffmah.mah_singlehalo", f.mah, f.t, f.opts["lgt0"])[1]
    g = c.call("spec.fit.guess", logm.get([T.sub(n, T.ONE)]), f.sp)
    c.eq("starting point is the documented guess", f.start,
         A.build((len(f.sp.vals),), lambda ix: T.pick(ix[0], tuple(T.P(x) for x in c.call("diffstar.defaults.get_unbounded_diffstar_params", g).vals)), "f", False),
         where=FH + "get_loss_data_default")
    x = V("logmp")
    g = c.call("spec.fit.guess", x, f.sp)
    bounds = {}
    for d in ("MS_PARAM_BOUNDS_PDICT", "Q_PARAM_BOUNDS_PDICT"):
        bounds.update(c.get("diffstar.defaults." + d))
    for nm, v in zip(f.sp.cls.fields, g.vals):
        lo, hi = bounds[nm]
        e = R.Env()
        c.require("guess of %s inside its bounds" % nm, R.positive(T.sub(T.P(v), T.P(lo)), e) and R.positive(T.sub(T.P(hi), T.P(v)), e),
                  "the guess can reach its bound", where=FH + "get_loss_data_default")
    for i in range(len(f.sp.vals)):
        c.require("width %d positive" % i, R.positive(f.width.get([i]), R.Env()), where=FH + "get_loss_data_default")

    # outcome
    up = c.get(SUP)
    best = c.call(BOUNDED, NT(up.cls, [f.ubest.get([i]) for i in range(len(up.vals))]))
    c.eq("returns the bounded best parameters, their loss and status", f.result, (best, f.lbest, f.ok), where=FH + "diffstar_fitter")
