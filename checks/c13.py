"""Key-linearity (typestate of PRNG keys) over every Monte Carlo entry point: each draw consumes a key
derived from the caller's by split/fold, no key is consumed twice or both consumed and divided, keys of
different galaxies differ, and no global random state or other entropy is touched."""

from sa import arrays as A, interp as I, terms as T
from sa.check import vec
from .common import *
from . import mc

MIN_OBLIGATIONS = 40
DRAWS = None


def derived(k, roots):
    """key is split/fold-derived from exactly one caller key"""
    a = T.single_atom(k)
    steps = 0
    while a is not None and a.kind == "app" and a.args[0] in ("split", "fold"):
        steps += 1
        a = T.single_atom(a.args[1])
    return (a if a is not None and a.kind == "var" and a.args[0] in roots else None), steps


def analyse(c, lab, run, roots=("key",), gg=None, caller_is_subkey=False):
    ip = c.ip
    k0, e0 = len(ip.keylog), len(ip.effects)
    run()
    log = ip.keylog[k0:]
    eff = [e for e in ip.effects[e0:] if "random" in str(e[0])]
    c.require(lab + ": no global random state", not eff, str(eff[0]) if eff else "", eff[0][1] if eff else None)
    draws = [(k, T.P(p), l) for k, p, l in log if k not in ("split", "fold_in", "fold")]
    splits = [(k, T.P(p), l) for k, p, l in log if k in ("split", "fold_in", "fold")]
    c.require(lab + ": draws found", len(draws) > 0, "no random draw")
    for k, p, l in draws:
        r, steps = derived(p, roots)
        c.require("%s: %s draws from a key derived from the caller's" % (lab, k), r is not None,
                  "key %s" % T.fmt(p, 3), l)
        c.require("%s: %s does not consume the caller's own key" % (lab, k), steps > 0,
                  "the caller's key is consumed directly", l)
    for i in range(len(draws)):
        for j in range(i):
            same = draws[i][1] is draws[j][1] and (draws[i][0], draws[i][2]) != (draws[j][0], draws[j][2]) or (
                draws[i][1] is draws[j][1])
            c.require("%s: %s and %s use different keys" % (lab, draws[i][0], draws[j][0]), not same,
                      "key %s is consumed at %s:%s and again" % (T.fmt(draws[i][1], 3), *(draws[j][2] or ("?", 0))), draws[i][2])
    for k, p, l in draws:
        for k2, p2, l2 in splits:
            if p is p2:
                c.require("%s: key is not both consumed and divided" % lab, False,
                          "key %s is divided at line %s and consumed" % (T.fmt(p, 3), (l2 or (0, 0))[1]), l)
    if gg is not None and T.single_atom(gg) is not None:
        for k, p, l in draws:
            ok = any(x.kind == "idx" for x in T.all_atoms(p)) or any(x.kind == "bv" for x in p.free)
            c.require("%s: %s key differs between galaxies" % (lab, k), ok, "every galaxy uses the same key", l)


def check(c):
    n, g = dims()
    gg = A.any_ci(1, g)
    for kind in ("u_params", "params", "sfh"):
        analyse(c, kind + " singlegal", lambda: mc.call(c, kind, False))
        analyse(c, kind + " galpop", lambda: mc.call(c, kind, True), gg=gg)
    analyse(c, "kernel", lambda: mc.kernel(c))
    analyse(c, "central kernel", lambda: mc.kernel(c, cen=True))
    # results depend on nothing random but the key
    r = mc.call(c, "sfh", False)
    from sa.check import atoms_of

    bad = [a for a in atoms_of(r) if a.kind == "app" and a.args[0] in ("rand", "clock", "nprandom")]
    c.require("only the key is random", not bad)
