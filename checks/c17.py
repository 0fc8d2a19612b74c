"""Value numbering and dependence analysis: the returned fraction is (host id == -1) ? central : satellite,
as terms, and no other output than the flag depends on the host id or the infall history."""

from sa import arrays as A, interp as I, terms as T
from sa.check import atoms_of
from .common import *
from . import mc

MIN_OBLIGATIONS = 30
INFALL = ("lgmu_infall", "logmhost_infall", "gyr_since_infall")


def check(c):
    n, g = dims()
    gg = A.any_ci(1, g)
    pp, mah, h, tp, key, t = mc.inputs(c)
    upid = h[1]
    cen = T.P(c.call("spec.pop.frac", pp, h[0], tp, "cen"))
    sat = T.P(c.call("spec.pop.frac_sat", pp, h[0], tp, *h[2:]))
    want = T.ite(T.eq(upid, T.const(-1)), cen, sat)
    for kind in ("kernel", "u_params", "params", "sfh"):
        for pop in (False, True):
            if kind == "kernel":
                if pop:
                    continue
                r = mc.kernel(c)
            else:
                r = mc.call(c, kind, pop)
            lab = kind + (" galpop" if pop else "")
            w = want
            if pop:
                r = [row(v, gg) for v in r]
                w = I.subst_value(want, mc.single_to_pop(gg))
            frac = r[-2] if isinstance(r[-2], T.Poly) else r[-2].get([])
            c.eq(lab + ": central fraction for host id -1, satellite fraction otherwise", frac, w)
            for v, nm in zip(r[:-2], ("main sequence", "quenched", "main-sequence history", "quenched history")):
                dep = free_vars(v) & set(INFALL + ("upid",))
                c.require("%s: %s does not depend on the infall fields" % (lab, nm), not dep,
                          "depends on %s" % sorted(dep), where(v, dep))
            u = T.single_atom(T.var("upid", gg) if pop else upid)
            fc = [I.subst_value(v, {u: T.const(-1)}) for v in r]
            for v, nm in ((fc[-2], "fraction"), (fc[-1], "flag")):
                dep = free_vars(v) & set(INFALL)
                c.require("%s: a central's %s ignores the infall fields" % (lab, nm), not dep,
                          "depends on %s" % sorted(dep), where(v, dep))
            fs = I.subst_value(frac, {u: T.const(5)})
            for k in INFALL:
                c.require("%s: a satellite's fraction uses %s" % (lab, k), k in free_vars(fs), "%s is ignored" % k)


def where(v, dep):
    for a in sorted(atoms_of(v), key=lambda a: a.size):
        if a.loc and any(x.kind == "var" and x.args[0] in dep for x in T.all_atoms(T.of_atom(a))):
            return a.loc
    return None
