"""The flag returned is, as a term, (uniform on [0,1) from a key of its own) < (the fraction returned)."""

from sa import arrays as A, interp as I, terms as T
from sa.check import atoms_of, vec
from .common import *
from . import mc

MIN_OBLIGATIONS = 24


def check(c):
    n, g = dims()
    gg = A.any_ci(1, g)
    cases = []
    for kind in ("sfh", "params", "u_params"):
        for pop in (False, True):
            r = mc.call(c, kind, pop)
            if pop:
                r = [row(v, gg) for v in r]
            cases.append(("%s %s" % (kind, "galpop" if pop else "singlegal"), r))
    cases.append(("kernel", mc.kernel(c)))
    cases.append(("central kernel", mc.kernel(c, cen=True)))
    for lab, r in cases:
        frac, flag = sca(r[-2]), sca(r[-1])
        un = [a for a in atoms_of(flag) if a.kind == "app" and a.args[0] == "unif"]
        un = [a for a in un if a not in atoms_of(frac)]
        c.require(lab + ": one uniform variate decides", len(un) == 1, "%d uniform variates" % len(un),
                  un[0].loc if un else None)
        if len(un) != 1:
            continue
        u = T.of_atom(un[0])
        c.eq(lab + ": flag is (variate < returned fraction)", flag, T.lt(u, frac))
        used = [a for a in atoms_of(r[:-1]) if a is un[0]]
        c.require(lab + ": the variate decides nothing else", not used, "the variate also enters another output", un[0].loc)
        key = un[0].args[1]
        other = [a for a in atoms_of(r) if a.kind == "app" and a.args[0] in ("mvn", "gauss", "unif", "randint")
                 and a is not un[0] and a.args[1] is key]
        c.require(lab + ": the variate's key draws nothing else", not other, "key shared with another draw", un[0].loc)


def sca(v):
    return v if isinstance(v, T.Poly) else T.P(v) if not isinstance(v, A.Arr) else v.get([])
