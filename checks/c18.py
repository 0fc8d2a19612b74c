"""Assembly analysis of the draws: every returned unbounded parameter is, by name, its own reference mean
plus its own component of one multivariate draw of its own block; unquenched values are the fixed defaults."""

from sa import arrays as A, interp as I, terms as T
from sa.check import atoms_of
from .common import *
from . import mc

MIN_OBLIGATIONS = 60
# unbounded parameter -> tag of its mean and spread
TAG = (("u_lgmcrit", "ulgm"), ("u_lgy_at_mcrit", "ulgy"), ("u_indx_lo", "ul"), ("u_indx_hi", "uh"),
       ("u_lg_qt", "uqt"), ("u_qlglgdt", "uqs"), ("u_lg_drop", "udrop"), ("u_lg_rejuv", "urej"))


def limits(c, kind, tag):
    b = c.get(PDF + "BOUNDING_VALS")
    return tuple(b.field("%s_%s" % (kind, tag)))


def ref_mean(c, pp, x, tp, tag, seq):
    m = T.P(c.call("spec.pop.mean", pp, x, tag, seq, None if tag in ("ulgm", "ulgy", "uqt") else limits(c, "mean", tag)))
    if tag == "uqt":
        m = T.add(m, T.P(c.call("spec.pop.delta_uqt", pp, x, tp)))
    return m


def ref_std(c, pp, x, tag, seq):
    return T.P(c.call("spec.pop.std", pp, x, tag, seq, limits(c, "std", tag)))


def parts(v):
    """(deterministic part, [(key, component, covariance)]) of a drawn parameter"""
    v = T.P(v)
    det, dr = T.ZERO, []
    for m, k in v.terms.items():
        hit = [a for a, e in m if a.kind == "app" and a.args[0] in ("mvn", "gauss")]
        if hit:
            dr.append((hit[0], m, k))
        else:
            det = T.add(det, T.scale(_mono(m), k))
    return det, dr


def _mono(m):
    r = T.ONE
    for a, e in m:
        r = T.mul(r, T.pow_rat(T.of_atom(a), e))
    return r


def check(c):
    pp, mah, h, tp, key, t = mc.inputs(c)
    x = h[0]
    unq = c.get("diffstar.defaults.DEFAULT_Q_U_PARAMS_UNQUENCHED")
    flds = list(c.get(SUP).cls.fields)
    c.eq("parameter order", flds, [f for f, _ in TAG])
    n, g = dims()
    gg = A.any_ci(1, g)
    cases = [("kernel", mc.kernel(c), None), ("central kernel", mc.kernel(c, cen=True), None),
             ("u_params", mc.call(c, "u_params", False), None)]
    pop = [row(v, gg) for v in mc.call(c, "u_params", True)]
    cases.append(("u_params galpop", pop, gg))
    for lab, r, sub in cases:
        ms, q = r[0], r[1]
        c.eq(lab + ": fields of the main-sequence set", list(ms.cls.fields), flds)
        c.eq(lab + ": fields of the quenched set", list(q.cls.fields), flds)
        keys = {}
        for f, tag in TAG:
            for seqname, p in (("main sequence", ms), ("quenched", q)):
                v = T.P(p.field(f) if not isinstance(p.field(f), A.Arr) else p.field(f).get([]))
                block = "quenching" if tag.startswith("uq") or tag in ("udrop", "urej") else "main-sequence"
                nm = "%s: %s of the %s set" % (lab, f, seqname)
                if seqname == "main sequence" and block == "quenching":
                    c.eq(nm + " is the fixed unquenched value", v, T.P(unq.field(f)))
                    continue
                seq = "" if block == "quenching" else "_mseq" if seqname == "main sequence" else "_qseq"
                mean, std = ref_mean(c, pp, x, tp, tag, seq), ref_std(c, pp, x, tag, seq)
                if sub is not None:
                    m = mc.single_to_pop(sub)
                    mean, std = I.subst_value(mean, m), I.subst_value(std, m)
                det, dr = parts(v)
                c.eq(nm + ": mean", det, mean)
                ok = len(dr) == 1 and dr[0][2] == 1 and len(dr[0][1]) == 1 and dr[0][1][0][1] == 1
                c.require(nm + ": exactly one drawn component", ok, "%d drawn terms" % len(dr), v and _loc(v))
                if not ok:
                    continue
                a = dr[0][0]
                pos = [y for y, tg in TAG if (tg in ("uqt", "uqs", "udrop", "urej")) == (block == "quenching")].index(f)
                c.require(nm + ": its own component of the draw", T.equal(T.P(a.args[2]), T.const(pos)),
                          "component %s of the draw, expected %d" % (T.fmt(T.P(a.args[2])), pos), a.loc)
                keys.setdefault((seqname, block), set()).add((a.args[1], a.args[3] if len(a.args) > 3 else None))
                cov = c.ip.covs.get(a.args[3]) if hasattr(c.ip, "covs") and len(a.args) > 3 else None
                if cov is not None:
                    d = A.sget(cov, [T.const(pos), T.const(pos)])
                    w = T.mul(std, std)
                    c.eq(nm + ": variance is its own squared spread", T.P(d), w)
        for k, s in keys.items():
            c.require("%s: one joint draw for the %s block of the %s set" % (lab, k[1], k[0]), len(s) == 1, "%d draws" % len(s))
        c.require(lab + ": the blocks are separate draws", len({next(iter(s))[0] for s in keys.values()}) == len(keys),
                  "two blocks share a key")


def _loc(v):
    from .c01 import v_loc

    return v_loc(v)
