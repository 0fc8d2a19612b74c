"""Value numbering of the composed population conversions; field-by-field dependence; shipped
unbounded defaults against the image of the shipped defaults."""

from sa import arrays as A, interp as I, terms as T
from .common import *
from .c03 import BOUND_ALL, UNB_ALL, GROUPS

MIN_OBLIGATIONS = 190


def check(c):
    names = list(c.get(PP).cls.fields)
    un = ["u_" + k for k in names]
    c.eq("unbounded names", list(c.get(PUP).cls.fields), un)
    sets = [(BOUND_ALL, UNB_ALL, PP, PUP)] + [g[:4] for g in GROUPS]
    for fb, fu, dp, du in sets:
        lab = fb.rsplit(".", 1)[1].replace("get_bounded_", "")
        p, u = c.nt(dp, "p."), c.nt(du, "")
        up, pu = c.call(fu, p), c.call(fb, u)
        c.eq(lab + ": bounded(unbounded(p))", c.call(fb, up), p)
        c.eq(lab + ": unbounded(bounded(u))", c.call(fu, pu), u)
        c.eq(lab + ": unbounded type", up.cls.fields, u.cls.fields)
        c.eq(lab + ": bounded type", pu.cls.fields, p.cls.fields)
        for k in p.cls.fields:
            c.eq("%s: u_%s depends on %s alone" % (lab, k, k), sorted(free_vars(up.field("u_" + k))), ["p." + k])
            c.eq("%s: %s depends on u_%s alone" % (lab, k, k), sorted(free_vars(pu.field(k))), ["u_" + k])
        c.eq(lab + ": shipped unbounded defaults", c.get(du), c.call(fu, c.get(dp)))
    # the group routines and the complete routine are the same map
    full_b, full_u = c.call(BOUND_ALL, c.nt(PUP, "")), c.call(UNB_ALL, c.nt(PP, "p."))
    dflt = c.get(PP)
    for fb, fu, dp, du in sets[1:]:
        pb, pu = c.call(fb, c.nt(du, "")), c.call(fu, c.nt(dp, "p."))
        for k in pb.cls.fields:
            c.eq("group and complete bounded %s" % k, pb.field(k), full_b.field(k))
            c.eq("group and complete unbounded %s" % k, pu.field("u_" + k), full_u.field("u_" + k))
            c.eq("group and complete default %s" % k, c.get(dp).field(k), dflt.field(k))
    for nm in ("DEFAULT_DIFFSTARPOP_PARAMS", "DEFAULT_DIFFSTARPOP_U_PARAMS"):
        c.eq("diffstarpop.defaults." + nm, c.get("diffstar.diffstarpop.defaults." + nm),
             c.get("diffstar.diffstarpop.kernels.defaults_mgash." + nm))
