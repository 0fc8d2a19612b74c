"""Structure of the covariances reaching the sampler: symmetric, diagonal entry i the square of the spread
of parameter i, all leading minors positive; spreads bounded by the clipped-line range lemmas, whose
hypotheses (declared intercepts strictly between the limits, lower limit positive) are checked by name."""

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import atoms_of
from .common import *
from . import mc
from .c03 import declared
from .c18 import TAG, ref_std, limits, parts
from .c35 import lemmas, line
from .c01 import v_loc

MIN_OBLIGATIONS = 80
BLOCKS = (("main-sequence block of the main sequence", TAG[:4], "_mseq", 0),
          ("main-sequence block of the quenched", TAG[:4], "_qseq", 1),
          ("quenching block", TAG[4:], "", 1))


def check(c):
    lemmas(c, "spread model", line(c))
    b = declared(c)
    for blk, tags, seq, _ in BLOCKS:
        for f, tag in tags:
            lo, hi = (T.P(x) for x in limits(c, "std", tag))
            il, ih = b["std_%s%s_int" % (tag, seq)]
            e = R.Env()
            nm = "%s, %s" % (blk, tag)
            c.require(nm + ": lower limit positive and below the upper", R.positive(lo, e) and R.positive(T.sub(hi, lo), e),
                      "limits (%s, %s)" % (T.fmt(lo), T.fmt(hi)))
            c.require(nm + ": declared intercepts lie between the limits",
                      R.nonneg(T.sub(il, lo), e) and R.nonneg(T.sub(hi, ih), e),
                      "intercept in (%s, %s), limits (%s, %s)" % tuple(map(T.fmt, (il, ih, lo, hi))))
    pp, mah, h, tp, key, t = mc.inputs(c)
    for lab, r in (("kernel", mc.kernel(c)), ("central kernel", mc.kernel(c, cen=True))):
        for blk, tags, seq, which in BLOCKS:
            nm = "%s, %s" % (lab, blk)
            det, dr = parts(first(r[which].field(tags[0][0])))
            c.require(nm + ": drawn", len(dr) == 1, "no draw")
            if len(dr) != 1:
                continue
            loc = dr[0][0].loc
            cov = c.ip.covs.get(dr[0][0].args[3])
            c.require(nm + ": one spread per parameter", cov is not None and cov.shape == (4, 4), "shape %s" % (cov.shape,), loc)
            m = [[T.P(A.sget(cov, [T.const(i), T.const(j)])) for j in range(4)] for i in range(4)]
            sd = [ref_std(c, pp, h[0], tag, seq) for _, tag in tags]
            e = R.Env()
            small = []
            mp = {}
            for i, (f, tag) in enumerate(tags):
                c.eq("%s: variance of %s" % (nm, tag), m[i][i], T.mul(sd[i], sd[i]), loc)
                s = V("sd%d" % i)
                e.bound(s, 0, None).sfact(s)
            for i in range(4):
                for j in range(i):
                    c.eq("%s: entry (%d,%d) symmetric" % (nm, i, j), m[i][j], m[j][i], loc)
            # correlations: entry / (spread_i * spread_j); positive definiteness of the correlation matrix
            cor = [[T.ONE if i == j else T.div(m[i][j], T.mul(sd[i], sd[j])) if m[i][j].terms else T.ZERO
                    for j in range(4)] for i in range(4)]
            for k in range(1, 5):
                d = det_(cor, k)
                c.require("%s: leading minor %d positive" % (nm, k), R.positive(d, e), "minor %s" % T.fmt(d, 3)[:200], loc)


def first(v):
    return v if not isinstance(v, A.Arr) else v.get([])


def det_(m, k):
    if k == 1:
        return m[0][0]

    def rec(rows, cols):
        if len(rows) == 1:
            return m[rows[0]][cols[0]]
        out = T.ZERO
        for q, cidx in enumerate(cols):
            x = m[rows[0]][cidx]
            if not x.terms:
                continue
            y = T.mul(x, rec(rows[1:], cols[:q] + cols[q + 1:]))
            out = T.add(out, T.scale(y, -1 if q % 2 else 1))
        return out

    return rec(list(range(k)), list(range(k)))
