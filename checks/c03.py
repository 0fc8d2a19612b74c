"""Range analysis: each bounded population parameter lies within the interval declared under its own
name (bounds dictionaries keyed by name); intervals are non-empty and hold the default inside."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from .common import *
from .c01 import v_loc

MIN_OBLIGATIONS = 400
D = "diffstar.diffstarpop.kernels.defaults_mgash."
BOUND_ALL = D + "get_bounded_diffstarpop_params"
UNB_ALL = D + "get_unbounded_diffstarpop_params"
GROUPS = (
    (PDF + "get_bounded_sfh_pdf_params", PDF + "get_unbounded_sfh_pdf_params",
     PDF + "SFH_PDF_QUENCH_PARAMS", PDF + "SFH_PDF_QUENCH_U_PARAMS", PDF + "SFH_PDF_QUENCH_PBOUNDS",
     PDF + "SFH_PDF_QUENCH_BOUNDS_PDICT"),
    (SATQ + "get_bounded_satquenchpop_params", SATQ + "get_unbounded_satquenchpop_params",
     SATQ + "DEFAULT_SATQUENCHPOP_PARAMS", SATQ + "DEFAULT_SATQUENCHPOP_U_PARAMS", SATQ + "SATQUENCHPOP_PBOUNDS",
     SATQ + "SATQUENCHPOP_PBOUNDS_PDICT"),
)


def declared(c):
    b = {}
    for gr in GROUPS:
        for k, v in c.get(gr[5]).items():
            b[k] = (T.P(v[0]), T.P(v[1]))
    return b


def check(c):
    env = R.Env()
    b = declared(c)
    names = list(c.get(PP).cls.fields)
    c.eq("every population parameter has a declared interval", sorted(b), sorted(names))
    PB = c.get("diffstar.diffstarpop.defaults.DIFFSTARPOP_PBOUNDS")
    dflt = c.get(PP)
    for k in names:
        l, h = b[k]
        c.eq("published interval of " + k, tuple(PB.field(k)), (l, h))
        c.require("interval of %s is not empty" % k, R.positive(T.sub(h, l), env), "empty interval")
        v = T.P(dflt.field(k))
        c.require("default of %s inside its interval" % k,
                  R.positive(T.sub(v, l), env) and R.positive(T.sub(h, v), env),
                  "default %s outside (%s, %s)" % (T.fmt(v), T.fmt(l), T.fmt(h)))

    def all_inside(label, r, fields, arr=False):
        c.eq(label + ": names", list(r.cls.fields), list(fields))
        for k in fields:
            v = r.field(k)
            v = T.P(v if not isinstance(v, A.Arr) else v.get([]) if v.shape == () else v.get([A.any_ci(1, v.shape[0])]))
            l, h = b[k]
            c.require("%s: %s" % (label, k), R.nonneg(T.sub(v, l), env) and R.nonneg(T.sub(h, v), env),
                      "%s can leave (%s, %s)" % (k, T.fmt(l), T.fmt(h)), v_loc(v))

    u = c.nt(PUP, "")
    all_inside("all parameters", c.call(BOUND_ALL, u), names)
    for fb, fu, dp, du, pb, pd in GROUPS:
        f = c.get(dp).cls.fields
        r = c.call(fb, c.nt(du, ""))
        all_inside(fb.rsplit(".", 1)[1], r, f)
        P = c.get(pb)
        c.eq(pb.rsplit(".", 1)[1], {k: tuple(P.field(k)) for k in f}, {k: b[k] for k in f})
    all_inside("unbounded defaults", c.call(BOUND_ALL, c.get(PUP)), names)
