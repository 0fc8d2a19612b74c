"""Value numbering of the population Monte Carlo routines against the single-galaxy routines with the
galaxy's own halo, environment and sub-key substituted."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *
from . import mc

MIN_OBLIGATIONS = 23
LABELS = {"sfh": ("params_ms", "params_q", "sfh_ms", "sfh_q", "frac_q", "mc_is_q"),
          "params": ("params_ms", "params_q", "frac_q", "mc_is_q"),
          "u_params": ("u_params_ms", "u_params_q", "frac_q", "mc_is_q")}


def subkey(v, gg):
    """the galaxy's key: the one key the population result divides per galaxy"""
    from sa.check import atoms_of

    keys = [a for a in atoms_of(v) if a.kind == "app" and a.args[0] in ("split", "fold")]
    at = T.single_atom(gg)
    if at is None:
        return [a for a in keys if a.args[1] is V("key") and T.equal(a.args[2], gg)]
    return [a for a in keys if a.args[1] is V("key") and at in T.all_atoms(T.of_atom(a))]


def check(c):
    n, g = dims()
    gg = A.any_ci(1, g)
    for kind, labs in LABELS.items():
        one, pop = mc.call(c, kind, False), mc.call(c, kind, True)
        c.require(kind + ": one row per galaxy", leads(pop, g), "an output is not one row per galaxy")
        pg = [pp_row(v, g, gg) for v in pop]
        own = subkey(pg, gg)
        c.require(kind + ": one sub-key per galaxy", len(set(own)) == 1,
                  "%d different sub-keys per galaxy" % len(set(own)), own[0].loc if own else None)
        if not own:
            continue
        c.eq(kind + ": galaxy i uses the i-th key of the split", T.of_atom(own[0]), T.app("split", V("key"), gg))
        m = mc.single_to_pop(gg, T.of_atom(own[0]))
        for lab, a, b in zip(labs, one, pg):
            c.eq("%s %s" % (kind, lab), b, I.subst_value(a, m))


def pp_row(v, g, gg):
    return row(v, gg)
