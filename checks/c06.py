"""The quenching kernel is the reference event (value numbering); its endpoint values, continuity at
every cut and bounds drop <= log10 f <= 0 are proved by substitution and range analysis; histories
are floor-or-(factor times unquenched rate)."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import atoms_of, vec
from .common import *
from .c01 import v_loc

MIN_OBLIGATIONS = 18
Q = "diffstar.kernels.quenching_kernels._quenching_kern"


def check(c):
    n, g = dims()
    y, qt, dt, drop, rej = V("y"), V("qt"), T.exp10(V("lgdt")), V("drop"), V("rej")
    env = R.Env()
    env.bound(drop, None, 0).bound(rej, drop, 0)
    env.fact(T.sub(rej, drop)).fact(T.neg(rej)).fact(T.neg(drop))
    lgt = V("lgt")
    f = c.call(Q, lgt, qt, dt, drop, rej)
    ref = T.exp10(c.call("spec.model.lg_quench", lgt, qt, dt, drop, rej))
    c.eq("factor is the reference event", f, ref)
    # time measured in twelfths of the duration from the quenching time: every lgt is of this form
    at = lambda z: c.call(Q, T.add(qt, T.mul(dt, T.div(T.P(z), T.const(12)))), qt, dt, drop, rej)
    fy = at(y)
    lgf = T.div(T.log(fy), T.LN10)
    c.eq("exactly the drop at the quenching time", at(0), T.exp10(drop))
    before, after = R.Env(), R.Env()
    before.bound(y, None, -6)
    after.bound(y, 6, None)

    def same(e, a, b):
        d = T.sub(a, b)
        return R.nonneg(d, e) and R.nonneg(T.neg(d), e)

    c.require("no suppression up to half a duration before", same(before, lgf, T.ZERO),
              "the factor is not one before the event", v_loc(fy))
    c.require("rejuvenation depth from half a duration after", same(after, lgf, rej),
              "the factor is not 10**rejuvenation after the event", v_loc(fy))
    # bounds, with the event split at the quenching time
    lo, hi = R.Env(), R.Env()
    for e, b in ((lo, (None, 0)), (hi, (0, None))):
        e.bound(y, *b)
        e.bound(drop, None, 0).bound(rej, drop, 0)
        e.fact(T.sub(rej, drop)).fact(T.neg(rej)).fact(T.neg(drop))
        nm = "first half" if e is lo else "second half"
        c.require(nm + ": never above one", R.nonneg(T.neg(lgf), e), "the factor can exceed one", v_loc(fy))
        c.require(nm + ": never below the drop", R.nonneg(T.sub(lgf, drop), e), "the factor can fall below 10**drop", v_loc(fy))
    # continuity: neighbouring pieces agree at every cut in y
    cuts = 0
    for a in sorted(atoms_of(lgf), key=lambda a: a.uid):
        if a.kind != "pw":
            continue
        base, cs, ps = a.args
        if set(x.args[0] for x in T.all_atoms(base) if x.kind == "var") != {"y"}:
            continue
        k = {m: q for m, q in base.terms.items() if m}
        if len(k) != 1 or len(list(k)[0]) != 1:
            continue
        (m, q), = k.items()
        off = base.terms.get((), 0)
        for j, cut in enumerate(cs):
            yc = T.const((T.cval(T.P(cut[0])) - off) / q)
            s = {T.single_atom(y): yc}
            cuts += 1
            c.eq("continuous at y=%s" % T.fmt(yc), T.subst(ps[j], s), T.subst(ps[j + 1], s))
    c.require("cuts found", cuts >= 3, "only %d" % cuts)
    # reparametrised kernel used by fits
    k = c.maybe("diffstar.kernels.quenching_kernels._quenching_kern_u_params")
    if k is not None:
        u = [V("u%d" % i) for i in range(4)]
        b = c.call("diffstar.kernels.quenching_kernels._get_bounded_q_params", *u)
        c.eq("kernel of unbounded parameters", c.call(k, lgt, *u), c.call(Q, lgt, b[0], T.exp10(b[1]), b[2], b[3]))
    # the histories: floor or factor times the unquenched rate, hence never above the unquenched history
    t = vec("t", n)
    i, gg = A.any_ci(0, n), A.any_ci(1, g)
    kw = {"lgt0": V("lgt0"), "fb": V("fb")}
    floor = T.P(c.get("diffstar.defaults.SFR_MIN"))
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d)
        x = c.call("diffstar.sfh_model.calc_sfh_" + lab, sp, mp, t, **kw).get(([gg] if d else []) + [i])
        one, om = c.nt(SP, "s."), c.nt(MP, "m.")
        ti = T.var("t", i)
        ms = c.call("spec.model.ms_sfr", ti, om, one, kw["lgt0"], kw["fb"])
        fac = c.call(Q, T.log10(ti), V("s.lg_qt"), T.exp10(V("s.qlglgdt")), V("s.lg_drop"), V("s.lg_rejuv"))
        sub = {}
        if d:
            sub.update(cols("s.", sp.cls.fields, gg))
            sub.update(cols("m.", mp.cls.fields, gg))
        c.eq(lab + ": factor times unquenched rate", x, T.subst(T.tmax(floor, T.mul(fac, ms)), sub))
        e = R.Env()
        e.bound(kw["fb"], 0)
        c.require(lab + ": unquenched rate non-negative", R.nonneg(T.subst(ms, sub), e))
        c.require(lab + ": factor positive", R.positive(T.subst(fac, sub), e))
