"""Value numbering of the composed conversions: bounded(unbounded(p)) and unbounded(bounded(u)) must
be the identity, component by component; scalar, array, vectorised and population routines must be
the same map; packaged unbounded defaults are the image of the packaged defaults."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *
from .c01 import MSM, QM, seq

SMALL = ({"g": 1, "n": 3},)
MIN_OBLIGATIONS = 25


def check(c):
    g = T.dim("g")
    gg = A.any_ci(1, g)
    names = list(c.get(SP).cls.fields)
    unames = list(c.get(SUP).cls.fields)
    ms = list(c.get(MSM + "MS_PARAM_BOUNDS_PDICT"))
    q = list(c.get(QM + "Q_PARAM_BOUNDS_PDICT"))
    c.eq("parameter order", names, ms + q)
    c.eq("unbounded names", unames, ["u_" + k for k in names])
    B = "diffstar.defaults.get_bounded_diffstar_params"
    U = "diffstar.defaults.get_unbounded_diffstar_params"
    for d, lab in ((), "per galaxy"), ((g,), "population arrays"):
        p, u = c.nt(SP, "s.", *d), c.nt(SUP, "", *d)
        r = c.call(B, c.call(U, p))
        c.eq("bounded(unbounded(p)) " + lab, r, p)
        c.eq("type " + lab, r.cls.fields, tuple(names))
        r = c.call(U, c.call(B, u))
        # every unbounded drop is the image of its own bounded value (the obligation on that field),
        # so the rejuvenation field may be compared with the drop written as such an image
        drop = unames.index("u_lg_drop")
        img = c.call(U, p)
        one = I.subst_value(img.vals[drop], {})
        sub = {}
        if not d:
            sub = {T.single_atom(u.vals[drop]): one}
        else:
            sub = {T.single_atom(u.vals[drop].get([A.any_ci(0, g)])): one.get([A.any_ci(0, g)])}
        k = unames.index("u_lg_rejuv")
        rest = [i for i in range(len(unames)) if i != k]
        c.eq("unbounded(bounded(u)) " + lab, [r.vals[i] for i in rest], [u.vals[i] for i in rest])
        c.eq("unbounded(bounded(u)) rejuvenation, " + lab, I.subst_value(r.vals[k], sub), u.vals[k])
        c.eq("unbounded type " + lab, r.cls.fields, tuple(unames))
    u = c.nt(SUP, "")
    p = c.nt(SP, "s.")
    ref_b = c.call(B, u)
    ref_u = c.call(U, p)
    nm = len(ms)

    def parts(label, fb, fu, lo, hi):
        c.eq(label + " bounded", seq(c.call(fb, *u.vals[lo:hi])), ref_b.vals[lo:hi])
        c.eq(label + " unbounded", seq(c.call(fu, *p.vals[lo:hi])), ref_u.vals[lo:hi])

    parts("main sequence scalar", MSM + "_get_bounded_sfr_params", MSM + "_get_unbounded_sfr_params", 0, nm)
    parts("quenching scalar", QM + "_get_bounded_q_params", QM + "_get_unbounded_q_params", nm, 8)

    def arrays(label, fb, fu, lo, hi, pop):
        for f, src, ref in ((fb, u, ref_b), (fu, p, ref_u)):
            f = c.maybe(f)
            if f is None:
                continue
            if pop:
                x = A.build((g, hi - lo), lambda i: T.var(T.single_atom(src.vals[lo + i[1]]).args[0], i[0]), "f", True)
                m = {T.single_atom(v): T.var(T.single_atom(v).args[0], gg) for v in src.vals}
                r = c.call(f, x)
                got = [r.get([gg, i]) for i in range(hi - lo)]
                want = [T.subst(v, m) for v in ref.vals[lo:hi]]
            else:
                r = c.call(f, A.stack(src.vals[lo:hi]))
                got = [r.get([i]) for i in range(hi - lo)]
                want = ref.vals[lo:hi]
            c.eq("%s %s" % (label, f.name if hasattr(f, "name") else ""), got, want)

    arrays("main sequence array", MSM + "_get_bounded_sfr_params_galpop_kern", MSM + "_get_unbounded_sfr_params_galpop_kern", 0, nm, False)
    arrays("quenching array", QM + "_get_bounded_q_params_galpop_kern", QM + "_get_unbounded_q_params_galpop_kern", nm, 8, False)
    arrays("main sequence vectorised", MSM + "_get_bounded_sfr_params_vmap", MSM + "_get_unbounded_sfr_params_vmap", 0, nm, True)
    arrays("quenching vectorised", QM + "_get_bounded_q_params_vmap", QM + "_get_unbounded_q_params_vmap", nm, 8, True)
    ug = c.nt(SUP, "", g)
    r = c.call(MC + "get_bounded_diffstar_params_galpop", ug)
    c.eq("population routine names", r.cls.fields, tuple(names))
    c.eq("population routine", row(r, gg), I.subst_value(ref_b, cols("", unames, gg)))
    c.eq("field dependence", [sorted(free_vars(v)) for v in ref_b.vals],
         [["u_" + k] if k != "lg_rejuv" else ["u_lg_drop", "u_lg_rejuv"] for k in names])
    D = c.get(SP)
    c.eq("unbounded defaults are the image of the defaults", c.get(SUP), c.call(U, D))
    c.eq("main-sequence unbounded defaults", seq(c.get(MSM + "DEFAULT_U_MS_PARAMS")), seq(c.get(SUP))[:nm])
    c.eq("quenching unbounded defaults", seq(c.get(QM + "DEFAULT_U_Q_PARAMS")), seq(c.get(SUP))[nm:])
    c.eq("main-sequence defaults", seq(c.get(MSM + "DEFAULT_MS_PARAMS")), seq(D)[:nm])
    c.eq("quenching defaults", seq(c.get(QM + "DEFAULT_Q_PARAMS")), seq(D)[nm:])
    c.eq("unquenched parameters", seq(c.get(QM + "DEFAULT_Q_PARAMS_UNQUENCHED")),
         seq(c.call(QM + "_get_bounded_q_params", *seq(c.get(QM + "DEFAULT_Q_U_PARAMS_UNQUENCHED")))))
    c.eq("fields of the unquenched parameters", c.get(QM + "DEFAULT_Q_U_PARAMS_UNQUENCHED").cls.fields,
         tuple("u_" + k for k in q))
    for dn, cn in ((MSM + "DEFAULT_U_MS_PDICT", MSM + "DEFAULT_U_MS_PARAMS"), (QM + "DEFAULT_U_Q_PDICT", QM + "DEFAULT_U_Q_PARAMS"),
                   (MSM + "DEFAULT_MS_PDICT", MSM + "DEFAULT_MS_PARAMS"), (QM + "DEFAULT_Q_PDICT", QM + "DEFAULT_Q_PARAMS")):
        d, t = c.get(dn), c.get(cn)
        c.eq(dn.rsplit(".", 1)[1], [d[k] for k in t.cls.fields], seq(t))
