"""The fitter of one history, seen through what it hands to the optimiser."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from sa.interp import NT
from sa.prims import term_key
from .common import *

FH = "diffstar.fitting_helpers.diffstar_fitting_helpers."
FU = "diffstar.fitting_helpers.utils."
SINGLE = "diffstar.sfh_model.calc_sfh_singlegal"
BOUNDED = "diffstar.defaults.get_bounded_diffstar_params"


def summarise_model(c):
    """the rate of a model galaxy at a time as a positive function of its parameters, halo, that time, lgt0 and fb; its
    mass as the mass formed at those rates"""
    c.get(SINGLE)

    def model(ip, f, args, kw):
        b = ip.bind(f, args, kw)
        p, m, t = b["sfh_params"], b["mah_params"], b["tarr"]
        p = [T.P(x) for x in ip.iterate(p, None)]
        m = [T.P(x) for x in ip.iterate(m, None)]
        sfh = A.build(t.shape, lambda ix: T.exp(T.app("model_sfr", *p, *m, T.P(t.get(ix)), T.P(b["lgt0"]), T.P(b["fb"]))), "f", True)
        both = T.cval(ip.truth(b["return_smh"]))
        if both is None:
            raise T.Undecided("return_smh not known")
        if not both:
            return sfh
        return sfh, c.call("spec.model.mass_formed", t, sfh)
    c.ip.intrinsics[SINGLE] = model


MASS = ("diffstar.utils.cumulative_mstar_formed", "spec.model.mass_formed")
FSTAR = ("diffstar.utils.compute_fstar", "spec.model.fstar")


def summarise_integrals(c):
    """mass formed and time-averaged rate as opaque functions of whole histories, after showing that the code's are
    the reference ones"""
    n = T.dim("n")
    t, s, w = vec("t", n), vec("s", n), V("w")
    for (a, b), args in ((MASS, (t, s)), (FSTAR, (t, s, w))):
        c.eq("%s is the reference" % a.rsplit(".", 1)[1], c.call(a, *args), c.call(b, *args), where=a)

    def opaque(name, positive):
        def f(ip, fn, args, kw):
            a = list(ip.bind(fn, args, kw).values())
            if not isinstance(a[0], A.Arr) or len(a[0].shape) != 1:
                raise T.Undecided(name + " of %s dimensions" % len(A.shape_of(a[0])))
            key = tuple(term_key(x) for x in a)
            g = lambda ix: T.app(name, key, T.P(ix[0]))
            return A.build(a[0].shape, (lambda ix: T.exp(g(ix))) if positive else (lambda ix: T.tmax(T.ZERO, g(ix))), "f", True)
        return f
    for q in MASS:
        c.ip.intrinsics[q] = opaque("lnmass", True)
    for q in FSTAR:
        c.ip.intrinsics[q] = opaque("avgrate", False)


class Fit:
    """arguments of the optimiser as the fitter calls it, on symbolic inputs"""

    def __init__(self, c):
        n = T.dim("n")
        self.t, self.sfh = vec("t", n), vec("sfh", n)
        mp = c.get(MP)
        self.mah = NT(mp.cls, [V("m." + f) for f in mp.cls.fields])
        self.opts = {k: V(k) for k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor", "lgt0", "fb")}
        c.get(FU + "minimizer_wrapper")
        calls = []
        self.sp = c.get(SP)
        ub = [V("best.u_" + f) for f in self.sp.cls.fields]
        self.ubest = A.build((len(ub),), lambda ix: T.pick(ix[0], tuple(ub)), "f", False)
        self.lbest, self.ok = V("loss_best"), T.dim("success")

        def wrap(ip, f, args, kw):
            calls.append(ip.bind(f, args, kw))
            return self.ubest, self.lbest, self.ok
        c.ip.intrinsics[FU + "minimizer_wrapper"] = wrap
        self.result = c.call(FH + "diffstar_fitter", self.t, self.sfh, self.mah, **self.opts)
        if len(calls) != 1:
            raise T.Undecided("the fitter calls the restarting optimiser %d times" % len(calls))
        self.args = calls[0]
        self.start, self.width = c.ip.iterate(self.args["p_init"], 2)
        self.u = vec("u", len(self.sp.cls.fields))

    def terms(self, c):
        """reference terms of the loss at the free vector u"""
        up = c.get(SUP)
        p = c.call(BOUNDED, NT(up.cls, [self.u.get([i]) for i in range(len(up.cls.fields))]))
        o = self.opts
        rate, mass = c.call(SINGLE, p, self.mah, self.t, lgt0=o["lgt0"], fb=o["fb"], return_smh=True)
        r = c.call("spec.fit.residuals", p, self.t, rate, mass, self.sfh, o["fstar_tdelay"], o["ssfrh_floor"], o["dlogm_cut"], o["t_fit_min"], o["mass_fit_min"])
        return p, c.call("spec.fit.terms", *r)
