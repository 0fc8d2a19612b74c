"""C37: the loss diffstar_fitter hands to the optimiser, at a free parameter vector, is the sum of the reference terms
of spec/fit.py for the model galaxy with those parameters, this halo, these times and this cosmology; each of those
terms is shown non-negative, and the squared ones zero where model and target coincide. The gradient it hands over is
that loss's derivative entry by entry, and the loss depends on every entry."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.interp import NT, Prim
from .common import *
from .fitmc import *

MIN_OBLIGATIONS = 29
TERMS = ("mass", "averaged rate", "rate", "final averaged rate", "late quenching penalty")


def check(c):
    summarise_integrals(c)
    summarise_model(c)
    c.ip.partials = True
    f = Fit(c)
    W = FH + "diffstar_fitter"
    p, terms = f.terms(c)
    lf, data = f.args["loss_func"], f.args["loss_data"]
    loss = T.P(c.call(lf, f.u, data))
    want = T.ZERO
    for x in terms:
        want = T.add(want, T.P(x))
    c.eq("loss is the sum of the misfit terms", loss, want, where=W)
    # the terms for arbitrary differences between model and target
    n = T.dim("n")
    diffs = [vec("dm", n), vec("df", n), vec("dr", n), V("dlast"), V("late")]
    gen = c.call("spec.fit.terms", *diffs)
    nil = c.call("spec.fit.terms", *[I.map_value(x, lambda y: T.ZERO if isinstance(y, T.Poly) else A.emap(lambda q: T.ZERO, y)) for x in diffs])
    for nm, x, z in zip(TERMS, gen, nil):
        c.require(nm + ": never negative", R.nonneg(T.P(x), R.Env()), where=W)
        if nm != TERMS[-1]:
            c.require(nm + ": zero where model and target coincide", T.is_zero(T.P(z)), where=W)
    for k, fld in enumerate(f.sp.cls.fields):
        at = T.single_atom(f.u.get([k]))
        c.require("loss depends on " + fld, at in T.all_atoms(loss), where=W)
        d = T.diff(loss, at)
        c.require("derivative with respect to %s is not identically zero" % fld, not T.is_zero(d), where=W)
    g = c.call(f.args["loss_func_deriv"], f.u, data)
    ref = c.call("spec.loss.value_and_gradient", lf, Prim("same", lambda ip, a, k: a[0]), f.u, [data])[1]
    c.eq("gradient of that loss, entry by entry", g, ref, where=W)
    unshielded(c, "nothing in that loss is shielded from differentiation", W, ("u",), lambda: c.call(lf, f.u, data))
