"""Value numbering: gas + stars is the reference integral of fb times diffmah's own accretion rate for
the caller's halo, times and age; the gas rate is the step-difference of the gas mass in Msun/yr."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 14


def check(c):
    n, g = dims()
    t = vec("t", n)
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    l0, fb = V("lgt0"), V("fb")
    mass, dta = c.get("spec.model.mass_formed"), c.get("spec.model.dt_array")
    one = c.nt(MP, "m.")
    halo = c.call("diffmah.diffmah_kernels.mah_singlehalo", one, t, l0)
    dmh = halo.vals[0] if isinstance(halo, I.NT) else halo[0]
    acc = A.emap(lambda x: T.mul(fb, x), dmh)
    baryons = c.call(mass, t, acc)
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        G = "diffstar.mgas_model.calc_mgas_" + lab
        m = {}
        if d:
            m = cols("s.", sp.cls.fields, gg)
            m.update(cols("m.", mp.cls.fields, gg))
        for how, r in (("keywords", c.call(G, sp, mp, t, lgt0=l0, fb=fb)), ("positions", c.call(G, sp, mp, t, l0, fb))):
            lb = "%s (%s)" % (lab, how)
            one_row = (lambda v: row(v, gg)) if d else (lambda v: v)
            gas, stars, rate = (one_row(r.field(k)) for k in ("mgash", "smh", "dmgash"))
            total = A.emap(T.add, gas, stars)
            want = I.subst_value(baryons, m)
            c.eq(lb + ": gas plus stars is the accreted baryons", total, want)
            c.eq(lb + ": stars are those of the star formation routine", r.field("smh"),
                 c.call("diffstar.sfh_model.calc_sfh_" + lab, sp, mp, t, lgt0=l0, fb=fb, return_smh=True).field("smh"))
            dg, dt = c.call(dta, gas), c.call(dta, t)
            k1 = T.add(T.any_idx(T.sub(n, T.const(2))), T.ONE)
            for where, j in (("first", T.ZERO), ("inner", k1), ("last", T.sub(n, T.ONE))):
                c.eq("%s: gas rate is the change of gas per year, %s time" % (lb, where),
                     rate.get([j]), T.div(dg.get([j]), T.mul(dt.get([j]), T.const(10**9))))
            x = total.get([i])
            f = T.single_atom(fb)
            zero = T.subst(x, {f: T.ZERO})
            k = V("k")
            c.eq(lb + ": baryons linear in fb", T.subst(x, {f: T.mul(k, fb)}),
                 T.add(T.mul(k, T.sub(x, zero)), zero))
            c.require(lb + ": baryons independent of the galaxy parameters",
                      not [v for v in free_vars(x) if v.startswith("s.")], "accreted baryons depend on galaxy parameters")
