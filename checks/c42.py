"""C42: dependence analysis with symbolic derivatives. Every output of the model and of the population draws is evaluated
for symbolic parameters and differentiated in each of them; conditions contribute nothing to a derivative, so a parameter
that only steers a branch has none. The parameters with a non-zero derivative must be exactly those the output is named
after, no other may be mentioned, and every parameter must have at least one output."""

import re

from sa import arrays as A, interp as I, terms as T
from .common import *
from . import mc
from .c18 import TAG, parts

SMALL = ()
MIN_OBLIGATIONS = 780
D = "diffstar.defaults."
QTAGS = ("uqt", "uqs", "udrop", "urej")


def moved_by(v, pre):
    """(parameters with a non-zero derivative, parameters mentioned)"""
    ats = [a for a in T.all_atoms(v) if a.kind == "var" and a.args[0].startswith(pre)]
    return {a.args[0][len(pre):] for a in ats if not T.is_zero(T.diff(v, a))}, {a.args[0][len(pre):] for a in ats}


def responds(c, name, v, want, pre, where):
    act, seen = moved_by(T.P(v), pre)
    for p in sorted(want):
        c.require("%s responds to %s" % (name, p), p in act, "mentioned in a condition only" if p in seen else "not used at all", where)
    c.require("%s responds to nothing else" % name, not (seen - set(want)), "also depends on %s" % sorted(seen - set(want))[:4], where)
    return act


def population(c):
    pp, mah, h, tp, key, t = mc.inputs(c)
    fields = list(pp.cls.fields)
    covered = set()
    W = MC + "mc_diffstar_u_params_singlegal"
    for lab, r in (("draw", mc.call(c, "u_params", False)), ("central draw", mc.kernel(c, cen=True))):
        ms, q = r[0], r[1]
        for f, tag in TAG:
            for seq, p in (("mseq", ms), ("qseq", q)):
                if tag in QTAGS and seq == "mseq":
                    continue
                v = p.field(f)
                det, dr = parts(v if not isinstance(v, A.Arr) else v.get([]))
                s = "" if tag in QTAGS else "_" + seq
                mean = {x for x in fields if re.fullmatch("mean_%s%s_[a-z]+" % (tag, s), x)}
                if tag == "uqt":
                    mean |= {x for x in fields if x.startswith("delta_uqt_")}
                std = {x for x in fields if re.fullmatch("std_%s%s_[a-z]+" % (tag, s), x)}
                c.require("%s: parameters of %s%s exist" % (lab, tag, s), len(mean) >= 2 and len(std) >= 2, "", W)
                covered |= responds(c, "%s: mean of %s%s" % (lab, tag, s), det, mean, "p.", W)
                if len(dr) == 1 and len(dr[0][0].args) > 3:
                    a = dr[0][0]
                    cov = c.ip.covs.get(a.args[3])
                    var = A.sget(cov, [T.P(a.args[2])] * 2)
                    covered |= responds(c, "%s: spread of %s%s" % (lab, tag, s), var, std, "p.", W)
                elif lab == "draw":
                    raise T.Undecided("spread of " + tag)
    # quenched fraction: centrals and satellites
    cen = {x for x in fields if x.startswith("frac_quench_cen_")}
    sat = {x for x in fields if x.startswith("frac_quench_sat_")} | set(c.get("diffstar.diffstarpop.kernels.satquenchpop_model.DEFAULT_SATQUENCHPOP_PARAMS").cls.fields)
    fq = mc.call(c, "u_params", False)[2]
    fq = fq if not isinstance(fq, A.Arr) else fq.get([])
    at = T.single_atom(h[1])
    covered |= responds(c, "quenched fraction of a central", T.subst(fq, {at: T.const(-1)}), cen, "p.", W)
    covered |= responds(c, "quenched fraction of a satellite", T.subst(fq, {at: T.const(7)}), sat, "p.", W)
    for f in fields:
        c.require("population parameter %s reaches an output" % f, f in covered, "", W)


def galaxy(c):
    n, g = dims()
    sp, mp = c.get(SP).cls, c.get(MP).cls
    p = I.NT(sp, [V("s." + f) for f in sp.fields])
    m = I.NT(mp, [V("m." + f) for f in mp.fields])
    t = vec("t", n)
    i = T.any_idx(n)
    S = "diffstar.sfh_model.calc_sfh_singlegal"
    outs = []
    sfh, smh = c.ip.iterate(c.call(S, p, m, t, lgt0=V("c.lgt0"), fb=V("c.fb"), return_smh=True), 2)
    outs.append((S, "star formation rate", A.getitem(sfh, (i,))[0], True))
    G = "diffstar.mgas_model.calc_mgas_singlegal"
    gas = c.ip.iterate(c.call(G, p, m, t, lgt0=V("c.lgt0"), fb=V("c.fb")), 4)
    outs.append((G, "star formation rate with gas", A.getitem(gas[0], (i,))[0], True))
    for W, nm, v, full in outs:
        responds(c, nm, v, sp.fields, "s.", W)
        responds(c, nm, v, mp.fields, "m.", W)
        responds(c, nm, v, ("lgt0", "fb"), "c.", W)
    # integrals over a grid of three times
    t3 = vec("t", 3)
    smh = c.ip.iterate(c.call(S, p, m, t3, lgt0=V("c.lgt0"), fb=V("c.fb"), return_smh=True), 2)[1]
    gas = c.ip.iterate(c.call(G, p, m, t3, lgt0=V("c.lgt0"), fb=V("c.fb")), 4)
    for W, nm, v in ((S, "stellar mass", smh), (G, "stellar mass with gas", gas[1]), (G, "gas rate", gas[2]), (G, "gas mass", gas[3])):
        v = v.get([2])
        for pre, flds in (("s.", sp.fields), ("m.", mp.fields), ("c.", ("lgt0", "fb"))):
            responds(c, nm, v, flds, pre, W)
    # bounding maps
    up = c.get(SUP).cls
    u = I.NT(up, [V("u." + f) for f in up.fields])
    W = D + "get_bounded_diffstar_params"
    b = c.call(W, u)
    for f, x in zip(sp.fields, c.ip.iterate(b, len(sp.fields))):
        act, _ = moved_by(T.P(x), "u.")
        c.require("bounded %s responds to its own unbounded value" % f, "u_" + f in act, str(sorted(act)), W)
    W = D + "get_unbounded_diffstar_params"
    b = c.call(W, p)
    for f, x in zip(sp.fields, c.ip.iterate(b, len(sp.fields))):
        act, _ = moved_by(T.P(x), "s.")
        c.require("unbounded %s responds to its own value" % f, f in act, str(sorted(act)), W)
    ppc, upc = c.get(PP).cls, c.get(PUP).cls
    for W, cls, pre in (("get_bounded_diffstarpop_params", upc, "u_"), ("get_unbounded_diffstarpop_params", ppc, "")):
        W = "diffstar.diffstarpop.kernels.defaults_mgash." + W
        r = c.call(W, I.NT(cls, [V("q." + f) for f in cls.fields]))
        for f, x in zip(ppc.fields, c.ip.iterate(r, len(ppc.fields))):
            responds(c, "%s %s" % (W.rsplit(".", 1)[1], f), T.P(x), (pre + f,), "q.", W)


def check(c):
    c.ip.stop_opaque = True  # a shielded value has no derivative
    c.attempt("population parameters", lambda: population(c))
    c.attempt("galaxy parameters", lambda: galaxy(c))
