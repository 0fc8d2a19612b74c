"""Value numbering: replacement of every single field, of every complement and of all fields in reversed order;
selection per galaxy and field between two symbolic parameter sets given in any field order."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from sa.interp import NT, NTClass
from .common import *

MIN_OBLIGATIONS = 400
M = "diffstar.diffstarpop.param_utils."


def partial(fields, pre="v."):
    return NT(NTClass("Varied", fields), [V(pre + f) for f in fields])


def filled(c, lab, call, base, fields):
    got = c.attempt(lab, lambda: call(partial(fields)))
    if got is None:
        return
    c.require(lab + ": field order kept", isinstance(got, NT) and got.cls.fields == base.cls.fields,
              "fields %s" % (getattr(getattr(got, "cls", None), "fields", None),))
    if not isinstance(got, NT):
        return
    s = set(fields)
    for f in base.cls.fields:
        if f in got.cls.fields:
            g, w = got.field(f), V("v." + f) if f in s else base.field(f)
            if T.equal(T.P(g), T.P(w)):
                continue
        c.require(lab + ": " + f, False, "%s is not %s" % (f, "the supplied value" if f in s else "its default"))
    c.require(lab + ": values", True)


def subsets(fields):
    yield "none", ()
    yield "all", fields
    yield "all, reversed", tuple(reversed(fields))
    yield "every other", fields[::2]
    for f in fields:
        yield f + " alone", (f,)
        yield "all but " + f, tuple(x for x in reversed(fields) if x != f)


def check(c):
    for lab, d in (("galaxy", SP), ("unbounded galaxy", SUP)):
        base = c.nt(d, "d.")
        for nm, fs in subsets(base.cls.fields):
            filled(c, lab + ", " + nm, lambda v: c.call(M + "get_all_params_from_varied", v, base), base, fs)
    base = c.get("diffstar.diffstarpop.kernels.defaults_mgash.DEFAULT_DIFFSTARPOP_U_PARAMS")
    for nm, fs in subsets(base.cls.fields):
        filled(c, "population, " + nm, lambda v: c.call(M + "get_all_diffstarpop_u_params", v), base, fs)
    # unknown names are refused, not silently dropped
    c.fails("an unknown name is refused", lambda: c.call(M + "get_all_params_from_varied", partial(("nobody",)), c.nt(SP, "d.")))
    g = T.dim("g")
    flag = A.build((g,), lambda ix: T.lt(T.var("r", ix[0]), T.var("f", ix[0])), dtype="b")
    i = A.any_ci(0, g)
    for lab, d in (("arrays", (g,)), ("one galaxy", ())):
        a, b = c.nt(SP, "a.", *d), c.nt(SP, "b.", *d)
        fl = flag if d else T.lt(V("r"), V("f"))
        rev = lambda x, fs: NT(NTClass("Other", fs), [x.field(f) for f in fs])
        for nm, x, y in (("same order", a, b), ("other orders", rev(a, a.cls.fields[::-1]), rev(b, b.cls.fields[3:] + b.cls.fields[:3]))):
            got = c.attempt(lab, lambda: c.call(M + "mc_select_diffstar_params", x, y, fl))
            if got is None:
                continue
            c.require(lab + ", " + nm + ": fields", isinstance(got, NT) and got.cls.fields == a.cls.fields)
            for f in a.cls.fields:
                v = got.field(f)
                cond = T.lt(T.var("r", i), T.var("f", i)) if d else fl
                pick = lambda z: z.field(f).get([i]) if d else z.field(f)
                c.eq(lab + ", " + nm + ": " + f, v.get([i]) if d else v, T.ite(cond, pick(a), pick(b)))
                if d:
                    c.require(lab + ", " + nm + ": " + f + " has one value per galaxy", tuple(T.P(s) for s in v.shape) == (g,))
