"""Range analysis of every unbounded-to-bounded conversion routine: lower <= value <= upper with
the limits declared in the bounds dictionaries; drop <= rejuvenation <= upper limit of rejuvenation."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import vec
from .common import *

MIN_OBLIGATIONS = 100
MSM = "diffstar.kernels.main_sequence_kernels."
QM = "diffstar.kernels.quenching_kernels."


def bounds_of(c):
    b = {}
    b.update(c.get(MSM + "MS_PARAM_BOUNDS_PDICT"))
    b.update(c.get(QM + "Q_PARAM_BOUNDS_PDICT"))
    return {k: (T.P(v[0]), T.P(v[1])) for k, v in b.items()}


def check(c):
    g = T.dim("g")
    gg = A.any_ci(1, g)
    b = bounds_of(c)
    env = R.Env()

    def inside(label, name, v, lo=None, hi=None):
        l, h = b[name]
        l = l if lo is None else lo
        c.require("%s: %s >= lower limit" % (label, name), R.nonneg(T.sub(v, l), env),
                  "%s is not bounded below by its limit" % name, v_loc(v))
        c.require("%s: %s <= upper limit" % (label, name), R.nonneg(T.sub(h, v), env),
                  "%s is not bounded above by its limit" % name, v_loc(v))

    def group(label, names, vals):
        d = dict(zip(names, vals))
        for k in names:
            inside(label, k, T.P(d[k]))
        if "lg_rejuv" in d and "lg_drop" in d:
            c.require(label + ": rejuvenation >= drop", R.nonneg(T.sub(d["lg_rejuv"], d["lg_drop"]), env),
                      "the rejuvenated depth can lie below the drop", v_loc(d["lg_rejuv"]))
            c.require(label + ": rejuvenation <= 0", R.nonneg(T.neg(d["lg_rejuv"]), env),
                      "the rejuvenated depth can exceed zero", v_loc(d["lg_rejuv"]))

    for k, (l, h) in b.items():
        c.require("limits of %s are ordered" % k, R.positive(T.sub(h, l), env), "empty interval")
    ms = list(c.get(MSM + "MS_PARAM_BOUNDS_PDICT"))
    q = list(c.get(QM + "Q_PARAM_BOUNDS_PDICT"))
    names = list(c.get(SP).cls.fields)
    um = [T.var("u." + k) for k in ms]
    uq = [T.var("u." + k) for k in q]

    group("ms scalar", ms, seq(c.call(MSM + "_get_bounded_sfr_params", *um)))
    group("q scalar", q, seq(c.call(QM + "_get_bounded_q_params", *uq)))
    umg = A.build((g, len(ms)), lambda i: T.var("u." + ms[i[1]], i[0]), "f", True)
    uqg = A.build((g, len(q)), lambda i: T.var("u." + q[i[1]], i[0]), "f", True)
    r = c.call(MSM + "_get_bounded_sfr_params_vmap", umg)
    group("ms vectorised", ms, [r.get([gg, i]) for i in range(len(ms))])
    r = c.call(QM + "_get_bounded_q_params_vmap", uqg)
    group("q vectorised", q, [r.get([gg, i]) for i in range(len(q))])
    r = c.private(MSM + "_get_bounded_sfr_params_galpop_kern", A.stack(um))
    if r is not None:
        group("ms array", ms, [r.get([i]) for i in range(len(ms))])
    r = c.private(QM + "_get_bounded_q_params_galpop_kern", A.stack(uq))
    if r is not None:
        group("q array", q, [r.get([i]) for i in range(len(q))])
    sup = c.nt(SUP, "u.")
    r = c.call("diffstar.defaults.get_bounded_diffstar_params", sup)
    c.eq("field names", list(r.cls.fields), names)
    group("all, per galaxy", names, [r.field(k) for k in names])
    supg = c.nt(SUP, "u.", g)
    r = c.call("diffstar.defaults.get_bounded_diffstar_params", supg)
    group("all, population arrays", names, [r.field(k).get([gg]) for k in names])
    r = c.call(MC + "get_bounded_diffstar_params_galpop", supg)
    group("all, population routine", names, [r.field(k).get([gg]) for k in names])
    for nm, k in (("_get_bounded_lg_drop", "lg_drop"), ("_get_bounded_qt", "lg_qt")):
        r = c.private(QM + nm, T.var("u.x"))
        if r is not None:
            inside(nm, k, r)
    rj = c.private(QM + "_get_bounded_lg_rejuv", T.var("u.x"), T.var("drop"))
    if rj is not None:
        env2 = env.copy()
        env2.bound(T.var("drop"), *b["lg_drop"])
        c.require("rejuvenation alone >= drop", R.nonneg(T.sub(rj, T.var("drop")), env2), "", v_loc(rj))
        c.require("rejuvenation alone <= limit", R.nonneg(T.sub(b["lg_rejuv"][1], rj), env2), "", v_loc(rj))
    for nm, names_ in ((MSM + "DEFAULT_MS_PARAMS", ms), (QM + "DEFAULT_Q_PARAMS", q), (SP, names),
                       (QM + "DEFAULT_Q_PARAMS_UNQUENCHED", q)):
        d = c.get(nm)
        c.eq("fields of " + nm, list(d.cls.fields), names_)
        group(nm, names_, list(d.vals))


def seq(v):
    return list(v.vals) if isinstance(v, I.NT) else list(v)


def v_loc(v):
    best = None
    for a in T.all_atoms(T.P(v)):
        if a.loc and str(a.loc[0]).find("/diffstar/") >= 0 and (best is None or a.uid > best.uid):
            best = a
    return best.loc if best else None
