"""Shared symbolic inputs for the checks."""

from sa import arrays as A
from sa import interp as I
from sa import terms as T
from sa.check import vec
from sa.interp import NT

V = T.var
SP = "diffstar.defaults.DEFAULT_DIFFSTAR_PARAMS"
SUP = "diffstar.defaults.DEFAULT_DIFFSTAR_U_PARAMS"
MP = "diffmah.diffmah_kernels.DEFAULT_MAH_PARAMS"
PP = "diffstar.diffstarpop.kernels.defaults_mgash.DEFAULT_DIFFSTARPOP_PARAMS"
PUP = "diffstar.diffstarpop.kernels.defaults_mgash.DEFAULT_DIFFSTARPOP_U_PARAMS"
MC = "diffstar.diffstarpop.mc_diffstarpop_mgash."
KERN = "diffstar.diffstarpop.kernels.diffstarpop_mgash."
SATQ = "diffstar.diffstarpop.kernels.satquenchpop_model."
PDF = "diffstar.diffstarpop.kernels.sfh_pdf_mgash."


def dims():
    return T.dim("n"), T.dim("g")


def cols(prefix, fields, gg):
    """mapping: scalar variable -> the same variable of the galaxy at index gg"""
    return {T.single_atom(T.var(prefix + f)): T.var(prefix + f, gg) for f in fields}


def scalars(names, gg):
    return {T.single_atom(T.var(f)): T.var(f, gg) for f in names}


def pieces(v):
    """all scalar terms of a value"""
    out = []

    def f(x):
        if isinstance(x, T.Poly):
            out.append(x)
        else:
            out.extend(x.data.values())
        return x

    I.map_value(v, f)
    return out


def row(v, gg):
    """component of a population value for the galaxy gg (leading axis removed)"""

    def f(x):
        if isinstance(x, T.Poly):
            return x
        return A.getitem(x, (gg,))[0]

    return I.map_value(v, f)


def leads(v, g):
    """every array of v has leading dimension g"""
    ok = []

    def f(x):
        ok.append(not isinstance(x, T.Poly) and len(x.shape) > 0 and A.same_dim(x.shape[0], g))
        return x

    I.map_value(v, f)
    return all(ok) and bool(ok)


def free_vars(v):
    """names of the variables a value depends on"""
    from sa.check import atoms_of

    return {a.args[0] for a in atoms_of(v) if a.kind == "var"}


def var_atoms(v):
    from sa.check import atoms_of

    return {a for a in atoms_of(v) if a.kind == "var"}


def unshielded(c, name, where, params, f):
    """run f; nothing that depends on the variables named in `params` is withheld from differentiation on the way"""
    c.ip.stopped = []
    try:
        f()
        bad = [(free_vars(v) & set(params), loc) for v, loc in c.ip.stopped]
    finally:
        c.ip.stopped = None
    bad = [(b, loc) for b, loc in bad if b]
    at = bad[0][1] if bad else None
    c.require(name, not bad, bad and "a value that depends on %s is shielded from differentiation" % ", ".join(sorted(bad[0][0])) or "",
              "%s:%s" % at if at else where)
