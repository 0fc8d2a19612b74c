"""Dependence analysis: the rate at grid position i mentions the grid only through t[i] (and not its
length); mass and gas at i are unchanged when every later grid entry is replaced by an arbitrary one."""

from sa import arrays as A, interp as I, terms as T
from sa.check import atoms_of, vec
from .common import *

MIN_OBLIGATIONS = 18


def check(c):
    n, g = dims()
    t = vec("t", n)
    i = A.any_ci(0, n)
    gg = A.any_ci(1, g)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}

    def later(a):
        if a.kind == "var" and a.args[0] == "t":
            e = a.args[2]
            return T.ite(T.le(e, i), T.var("t", e), T.var("w", e))
        return None

    def pointwise(lab, v, idx):
        x = v.get(idx)
        bad = [a for a in T.all_atoms(x) if a.kind == "var" and a.args[0] == "t" and a.args[2:] != (i,)]
        c.require(lab + ": depends on the grid only through t[i]", not bad,
                  "depends on %s" % (bad[0] if bad else ""), bad[0].loc if bad else None)
        # position itself must not matter: only through t[i]
        y = T.rewrite(x, lambda a: T.var("tt") if a.kind == "var" and a.args[0] == "t" else None)
        bad = [a for a in T.all_atoms(y) if a is T.single_atom(n)]
        c.require(lab + ": does not depend on the grid length", not bad, "depends on the number of times")
        free = A.ci_atom(0, n) in T.all_atoms(y)
        c.require(lab + ": does not depend on the position in the grid", not free, "depends on the index of the time")

    def causal(lab, v, idx):
        x = v.get(idx)
        c.eq(lab + ": unchanged by later times", T.rewrite(x, later), x)

    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        idx = ([gg] if d else []) + [i]
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        S = "diffstar.sfh_model.calc_sfh_" + lab
        G = "diffstar.mgas_model.calc_mgas_" + lab
        both = c.call(S, sp, mp, t, return_smh=True, **kw)
        gas = c.call(G, sp, mp, t, **kw)
        pointwise("sfh " + lab, both.field("sfh"), idx)
        pointwise("gas-routine sfh " + lab, gas.field("sfh"), idx)
        causal("smh " + lab, both.field("smh"), idx)
        causal("gas smh " + lab, gas.field("smh"), idx)
        causal("mgash " + lab, gas.field("mgash"), idx)
    # the integrator itself, for an arbitrary history
    def later2(a):
        if a.kind == "var" and a.args[0] in ("t", "y"):
            e = a.args[2]
            return T.ite(T.le(e, i), T.var(a.args[0], e), T.var("w" + a.args[0], e))
        return None

    for lab, f, args in (("cumtrapz", "diffstar.utils.cumtrapz", (t, vec("y", n))),
                         ("cumulative_mstar_formed", "diffstar.utils.cumulative_mstar_formed", (t, vec("y", n)))):
        x = c.call(f, *args).get([i])
        c.eq(lab + ": unchanged by later entries", T.rewrite(x, later2), x)
