"""The main-sequence kernel is the reference rolling power law of the halo mass (value numbering);
pivot efficiency, asymptotic slopes and linear scaling with fb follow from the same term."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 12
K = "diffstar.kernels.main_sequence_kernels."


def check(c):
    n, g = dims()
    mp = c.nt(MP, "m.")
    msf = list(c.get(K + "DEFAULT_MS_PARAMS").cls.fields)
    p = c.nt(K + "DEFAULT_MS_PARAMS", "s.")
    t, l0, fb = V("t"), V("lgt0"), V("fb")
    sfr = c.call(K + "sfh_ms_kernel", t, mp, p, l0, fb)
    ref = c.call("spec.model.ms_sfr", t, mp, c.nt(SP, "s."), l0, fb)
    c.eq("main-sequence rate", sfr, ref)
    c.eq("main-sequence rate from a plain tuple", c.call(K + "sfh_ms_kernel", t, mp, tuple(p.vals), l0, fb), ref)
    v = c.maybe(K + "sfh_ms_kernel_vmap")
    if v is not None:
        tt = vec("t", n)
        c.eq("vectorised over time", c.call(v, tt, mp, p, l0, fb).get([A.any_ci(0, n)]),
             T.subst(ref, {T.single_atom(t): T.var("t", A.any_ci(0, n))}))
    lgm = c.call("diffmah.diffmah_kernels._log_mah_kern", mp, t, l0)
    mass = T.exp10(lgm)
    eff = T.div(T.div(sfr, mass), fb)
    c.require("linear in the baryon fraction", "fb" not in free_vars(eff), "efficiency depends on fb")
    # efficiency as a function of halo mass alone
    e = c.maybe(K + "_sfr_eff_plaw")
    M = V("lgm")
    if e is not None:
        x = c.call(e, M, *p.vals)
        c.eq("pivot efficiency at the critical mass", T.subst(x, {T.single_atom(M): p.field("lgmcrit")}), p.field("lgy_at_mcrit"))
        c.eq("efficiency used by the kernel", T.exp10(T.subst(x, {T.single_atom(M): lgm})), eff)
        d = V("d")
        slope = T.div(T.sub(T.subst(x, {T.single_atom(M): T.add(p.field("lgmcrit"), d)}), p.field("lgy_at_mcrit")), d)
        lim = lambda sgn: T.subst(slope, {T.single_atom(d): T.mul(T.const(sgn), T.INF)})
        sig = [a for a in T.all_atoms(slope) if a.kind == "sig"]
        c.require("slope rolls through one sigmoid", len(sig) == 1)
        if len(sig) == 1:
            a = sig[0]
            up = T.cval(T.div(a.args[0], d))
            c.require("roll direction is fixed", up is not None and up != 0, "sigmoid argument is not proportional to the distance from the pivot", a.loc)
            hi_end, lo_end = (T.ONE, T.ZERO) if up is not None and up > 0 else (T.ZERO, T.ONE)
            c.eq("high-mass slope", T.subst_top(slope, a, hi_end) if False else T.subst(slope, {a: hi_end}), p.field("indx_hi"))
            c.eq("low-mass slope", T.subst(slope, {a: lo_end}), p.field("indx_lo"))
    # after the halo's peak time the halo mass, hence the rate, is constant
    early = T.var("s", sort="real")
    tp = mp.field("t_peak")
    late = {T.single_atom(t): T.add(tp, T.exp(early))}
    x = T.subst(sfr, late)
    env = R.Env()
    d = T.sub(x, T.subst(sfr, {T.single_atom(t): tp}))
    c.require("constant after the peak time", T.is_zero(d) or (R.nonneg(d, env) and R.nonneg(T.neg(d), env)),
              "the unquenched rate still varies after the halo's peak time")
    # public histories scale linearly with fb above the floor
    kw = {"lgt0": l0, "fb": fb}
    sp = c.nt(SP, "s.")
    ta = vec("t", n)
    S = "diffstar.sfh_model.calc_sfh_"
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    x = c.call(S + "singlegal", sp, mp, ta, **kw).get([i])
    raw = c.call("spec.model.sfr_raw", T.var("t", i), mp, sp, l0, fb)
    floor = T.P(c.get("diffstar.defaults.SFR_MIN"))
    c.eq("public history above the floor", x, T.tmax(floor, raw))
    c.require("model value is fb times a term without fb", "fb" not in free_vars(T.div(raw, fb)))
    sg, mg = c.nt(SP, "s.", g), c.nt(MP, "m.", g)
    y = c.call(S + "galpop", sg, mg, ta, **kw).get([gg, i])
    m = cols("s.", sp.cls.fields, gg)
    m.update(cols("m.", mp.cls.fields, gg))
    c.eq("population history above the floor", y, T.subst(T.tmax(floor, raw), m))
    c.eq("order of main-sequence parameters", msf, list(sp.cls.fields)[:4])
