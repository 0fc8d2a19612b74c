"""Interval and sign analysis of terms.

nonneg(p, env) / positive(p, env) answer True only when the inequality holds for every value
of the variables inside their declared intervals.  Interval arithmetic comes first; then
piecewise splits, factoring of positive monomials, elimination of atoms that occur linearly and
lie in an interval (an affine function is minimal at an end of the interval), monotonicity of
exp/log/sigmoid, and linear combination with known facts.
"""

import math
from fractions import Fraction

from . import terms as T
from .terms import Poly

INF = float("inf")


class Env:
    def __init__(self):
        self.bounds = {}  # atom -> (lo, hi) of Poly | None, closed
        self.facts = []  # polys known to be >= 0
        self.strict = []  # polys known to be > 0
        self.memo = {}
        self.hook = None

    def copy(self):
        e = Env()
        e.bounds = dict(self.bounds)
        e.facts = list(self.facts)
        e.strict = list(self.strict)
        e.hook = self.hook
        return e

    def bound(self, p, lo=None, hi=None):
        a = T.single_atom(T.P(p))
        self.bounds[a] = (None if lo is None else T.P(lo), None if hi is None else T.P(hi))
        return self

    def fact(self, p):
        self.facts.append(T.P(p))
        return self

    def sfact(self, p):
        self.strict.append(T.P(p))
        return self


def _f(x):
    return x if isinstance(x, float) and math.isinf(x) else Fraction(x)


def _down(x):
    return x if math.isinf(x) else Fraction(x) - abs(Fraction(x)) * Fraction(1, 10**12) - Fraction(1, 10**300)


def _up(x):
    return x if math.isinf(x) else Fraction(x) + abs(Fraction(x)) * Fraction(1, 10**12) + Fraction(1, 10**300)


def _add(a, b):
    return (
        -INF if -INF in (a[0], b[0]) else a[0] + b[0],
        INF if INF in (a[1], b[1]) else a[1] + b[1],
    )


def _m(x, y):
    if x == 0 or y == 0:
        return Fraction(0)
    if isinstance(x, float) or isinstance(y, float):
        return INF if (x > 0) == (y > 0) else -INF
    return x * y


def _mul(a, b):
    c = [_m(x, y) for x in a for y in b]
    return (min(c), max(c))


def _powi(a, e):
    lo, hi = a
    if isinstance(e, int) or Fraction(e).denominator == 1:
        e = int(e)
        if e < 0:
            if lo >= 0:
                i = (Fraction(0) if hi == INF else (1 / Fraction(hi) if hi != 0 else INF),
                     INF if lo == 0 else 1 / Fraction(lo))
                return _powi(i, -e)
            if hi <= 0:
                i = (-INF if hi == 0 else 1 / Fraction(hi),
                     Fraction(0) if lo == -INF else 1 / Fraction(lo))
                return _powi(i, -e)
            return (Fraction(0) if e % 2 == 0 else -INF, INF)
        if e == 0:
            return (Fraction(1), Fraction(1))
        if e % 2 == 1 or lo >= 0:
            f = lambda x: x if isinstance(x, float) else x**e
            g = [f(lo) if lo != -INF else (-INF if e % 2 else INF), f(hi)]
            return (min(g), max(g))
        m = max(abs(lo), abs(hi))
        lo2 = Fraction(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e
        return (lo2, INF if m == INF else m**e)
    if lo < 0:
        lo = Fraction(0)
    e = float(e)
    if e > 0:
        return (_down(0.0 if lo == 0 else float(lo) ** e) if lo != INF else INF,
                INF if hi == INF else _up(float(hi) ** e))
    return (Fraction(0) if hi == INF else _down(float(hi) ** e if hi > 0 else INF),
            INF if lo == 0 else _up(float(lo) ** e))


def rng_atom(a, env):
    key = (a, 0)
    r = env.memo.get(key)
    if r is not None:
        return r
    env.memo[key] = (-INF, INF)
    r = _rng_atom(a, env)
    env.memo[key] = r
    return r


def _rng_atom(a, env):
    k = a.kind
    b = env.bounds.get(a)
    lo, hi = -INF, INF
    if b is not None:
        if b[0] is not None:
            lo = rng(b[0], env)[0]
        if b[1] is not None:
            hi = rng(b[1], env)[1]
    if env.hook is not None:
        h = env.hook(a)
        if h is not None:
            lo, hi = max(lo, h[0]), min(hi, h[1])
    i = (-INF, INF)
    if k == "sig":
        l, h = rng(a.args[0], env)
        i = (Fraction(0) if l == -INF else _down(_sig(l)), Fraction(1) if h == INF else min(Fraction(1), _up(_sig(h))))
        i = (max(Fraction(0), i[0]), i[1])
    elif k == "exp":
        l, h = rng(a.args[0], env)
        i = (Fraction(0) if l == -INF else _down(_exp(l)), INF if h == INF else _up(_exp(h)))
        i = (max(Fraction(0), i[0]), i[1])
    elif k == "log":
        l, h = rng(a.args[0], env)
        l = max(l, Fraction(0))
        i = (-INF if l == 0 else _down(_log(l)), INF if h == INF else _up(_log(h)) if h > 0 else -INF)
    elif k == "pi":
        i = (Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14))
    elif k == "poly":
        i = rng(a.args[0], env)
    elif k == "pw":
        base, cuts, pieces = a.args
        lo2, hi2 = INF, -INF
        bl, bh = rng(base, env)
        for j, p in enumerate(pieces):
            cl = cuts[j - 1][0] if j > 0 else None
            ch = cuts[j][0] if j < len(cuts) else None
            if cl is not None and _c(cl) > bh or ch is not None and _c(ch) < bl:
                continue
            x = rng(p, env)
            lo2, hi2 = min(lo2, x[0]), max(hi2, x[1])
        if lo2 <= hi2:
            i = (lo2, hi2)
    elif k == "var":
        if len(a.args) > 1 and a.args[1] == "idx":
            i = (Fraction(0), INF)
    elif k == "dim":
        i = (Fraction(T.DIM_MIN), INF)
    elif k in ("sum",):
        x = rng(a.args[-1] if isinstance(a.args[-1], Poly) else a.args[2], env)
        i = (Fraction(0) if x[0] >= 0 else -INF, Fraction(0) if x[1] <= 0 else INF)
    elif k in ("redmax", "redmin"):
        i = rng(a.args[-1] if isinstance(a.args[-1], Poly) else a.args[2], env)
    elif k == "app" and a.args[0] == "unif":
        i = (Fraction(0), Fraction(1))
    elif k == "fn" and a.args[0] in ("tanh", "sin", "cos", "erf"):
        i = (Fraction(-1), Fraction(1))
    if a.isbool:
        i = (max(i[0], Fraction(0)), min(i[1], Fraction(1)))
    return (max(lo, i[0]), min(hi, i[1]))


def _sig(x):
    x = float(x)
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def _exp(x):
    x = float(x)
    return math.exp(x) if x < 700 else INF


def _log(x):
    return math.log(x) if not isinstance(x, Fraction) else math.log(x.numerator) - math.log(x.denominator)


def _c(x):
    if isinstance(x, Poly):
        return T.cval(x)
    return Fraction(x)


def rng(p, env):
    p = T.P(p)
    c = T.cval(p)
    if c is not None:
        return (c, c)
    r = env.memo.get(p)
    if r is not None:
        return r
    out = (Fraction(0), Fraction(0))
    for m, c in p.terms.items():
        t = (c, c)
        for a, e in m:
            t = _mul(t, _powi(rng_atom(a, env), e))
        out = _add(out, t)
    env.memo[p] = out
    return out


# ---------------------------------------------------------------- sign proofs
def nonneg(p, env, depth=9):
    return _prove(T.P(p), env, False, depth)


def positive(p, env, depth=9):
    return _prove(T.P(p), env, True, depth)


def le(a, b, env, depth=9):
    return nonneg(T.sub(T.P(b), T.P(a)), env, depth)


def lt(a, b, env, depth=9):
    return positive(T.sub(T.P(b), T.P(a)), env, depth)


def atom_strictly_pos(a, env):
    if a.kind == "exp" or a.kind == "sig" or a.kind == "pi" or a.kind == "dim":
        return True
    if rng_atom(a, env)[0] > 0:
        return True
    q = T.of_atom(a)
    return any(q is s for s in env.strict)


def _prove(p, env, strict, depth):
    c = T.cval(p)
    if c is not None:
        return c > 0 if strict else c >= 0
    key = (p, strict, "prove")
    r = env.memo.get(key)
    if r is not None and (r[0] or r[1] >= depth):
        return r[0]
    env.memo[key] = (False, depth)
    v = _prove1(p, env, strict, depth)
    env.memo[key] = (v, depth)
    return v


def _prove1(p, env, strict, depth):
    lo, hi = rng(p, env)
    if lo > 0 or (lo >= 0 and not strict):
        return True
    if hi < 0 or (hi <= 0 and strict):
        return False
    # strip positive factors
    lc, mono, prim = T.content(p)
    keep = []
    sign = 1
    for a, e in mono:
        if isinstance(e, int) and e > 0 and e % 2 == 0 and not strict:
            continue
        r = rng_atom(a, env)
        if atom_strictly_pos(a, env) or r[0] > 0:
            continue
        if e > 0 and not strict and r[0] >= 0:
            continue
        if e < 0 and r[0] >= 0:
            continue  # a reciprocal that exists
        if isinstance(e, int) and r[1] <= 0 and (r[1] < 0 or e < 0 or not strict):
            sign = sign * (-1 if e % 2 else 1)
            continue
        if a.kind == "poly" and _prove(a.args[0], env, e < 0 or strict, depth - 1):
            continue
        keep.append((a, e))
    if len(keep) < len(mono) or (lc not in (1, -1)):
        s = sign if lc > 0 else -sign
        q = T.mul(T._mkpoly({tuple(keep): Fraction(s)}), prim)
        if q is not p:
            return _prove(q, env, strict, depth)
    if depth <= 0:
        return False
    # all monomials of one sign
    ok = True
    some = False
    for m, c in p.terms.items():
        t = (c, c)
        st = c > 0
        for a, e in m:
            t = _mul(t, _powi(rng_atom(a, env), e))
            if not (atom_strictly_pos(a, env) or (isinstance(e, int) and e < 0)):
                st = False
        if t[0] < 0:
            ok = False
            break
        some = some or t[0] > 0 or st
    if ok and (some or not strict):
        return True
    for s in env.strict:
        k = T.cval(T.div(p, s)) if s.terms and set(s.terms) == set(p.terms) else None
        if k is not None and k > 0:
            return True
    if not strict:
        for s in env.facts:
            k = T.cval(T.div(p, s)) if s.terms and set(s.terms) == set(p.terms) else None
            if k is not None and k >= 0:
                return True
    # piecewise
    pa = T._find_pw(p)
    if pa is not None:
        return _split(pa, p, env, strict, depth)
    # fractions
    d, n = _frac(p)
    if d is not None:
        if _prove(d, env, True, depth - 1):
            return _prove(n, env, strict, depth - 1)
        if _prove(T.neg(d), env, True, depth - 1):
            return _prove(T.neg(n), env, strict, depth - 1)
    # two monomials with exp / monotone heads
    if len(p.terms) == 2 and _monotone(p, env, strict, depth):
        return True
    u = _univariate(p, env, strict)
    if u is not None:
        return u
    # facts
    for s in env.facts + env.strict:
        for m, c in s.terms.items():
            if m in p.terms and m:
                lam = p.terms[m] / c
                if lam > 0:
                    q = T.sub(p, T.scale(s, lam))
                    if len(q.terms) < len(p.terms) + len(s.terms) - 1 or len(q.terms) <= len(p.terms):
                        e2 = env.copy()
                        e2.facts = [x for x in env.facts if x is not s]
                        e2.strict = [x for x in env.strict if x is not s]
                        if _prove(q, e2, strict and s in env.facts, depth - 1):
                            return True
                break
    # linear elimination of bounded atoms
    cand = {}
    for m in p.terms:
        for a, e in m:
            if e == 1:
                cand.setdefault(a, 0)
            else:
                cand[a] = 9
    for a in sorted(cand, key=lambda a: (a.kind == "sig" and 1 or 0, a.uid)):
        if cand[a]:
            continue
        for l, h, op in _ends(a, env):
            A = {}
            B = {}
            for m, c in p.terms.items():
                if any(x is a for x, _ in m):
                    A[tuple(y for y in m if y[0] is not a)] = c
                else:
                    B[m] = c
            A = T._mkpoly(A)
            B = T._mkpoly(B)
            if l is not None and h is not None:
                pl = T.add(T.mul(A, l), B)
                ph = T.add(T.mul(A, h), B)
                if op and strict:
                    if (_prove(pl, env, False, depth - 1) and _prove(ph, env, True, depth - 1)) or (
                            _prove(pl, env, True, depth - 1) and _prove(ph, env, False, depth - 1)):
                        return True
                elif _prove(pl, env, strict, depth - 1) and _prove(ph, env, strict, depth - 1):
                    return True
            elif l is not None:
                if _prove(A, env, False, depth - 2) and _prove(T.add(T.mul(A, l), B), env, strict, depth - 1):
                    return True
            elif h is not None:
                if _prove(T.neg(A), env, False, depth - 2) and _prove(T.add(T.mul(A, h), B), env, strict, depth - 1):
                    return True
    return False


def _univariate(p, env, strict):
    """exact decision for a polynomial in one atom over that atom's interval (Sturm sequence)"""
    at = {a for m in p.terms for a, _ in m}
    if len(at) != 1:
        return None
    (a,) = at
    deg = 0
    for m in p.terms:
        for _, e in m:
            if not isinstance(e, int) or e < 0:
                return None
            deg = max(deg, e)
    if deg < 2:
        return None
    co = [Fraction(0)] * (deg + 1)
    for m, c in p.terms.items():
        co[m[0][1] if m else 0] += c
    lo, hi = rng_atom(a, env)
    big = 2 + 2 * max(abs(c) for c in co) / abs(co[-1])  # beyond every root
    l = -big if lo == -INF else Fraction(lo)
    h = big if hi == INF else Fraction(hi)
    if l > h:
        return True
    ends = [_pe(co, l), _pe(co, h)]
    if min(ends) < 0:
        return False
    if l == h:
        return ends[0] > 0 if strict else True
    odd = [Fraction(1)]
    for k, f in enumerate(_yun(co), 1):
        if k % 2 == 1 or strict:
            odd = _pm(odd, f)
    mid = (l + h) / 2
    roots = _sturm(odd, l, h)
    if roots == 0:
        while _pe(co, mid) == 0:
            mid = (mid + h) / 2
        return _pe(co, mid) > 0 and (not strict or min(ends) > 0)
    return False


def _pe(co, x):
    r = Fraction(0)
    for c in reversed(co):
        r = r * x + c
    return r


def _pt(c):
    c = list(c)
    while len(c) > 1 and c[-1] == 0:
        c.pop()
    return c


def _pm(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return _pt(r)


def _pdiv(a, b):
    a = list(a)
    q = [Fraction(0)] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and any(a):
        k = a[-1] / b[-1]
        d = len(a) - len(b)
        q[d] = k
        for i, x in enumerate(b):
            a[i + d] -= k * x
        a.pop()
        if not a:
            a = [Fraction(0)]
            break
    return _pt(q), _pt(a)


def _pgcd(a, b):
    while any(b):
        a, b = b, _pdiv(a, b)[1]
    return [x / a[-1] for x in a]


def _pd(a):
    return _pt([c * i for i, c in enumerate(a)][1:] or [Fraction(0)])


def _yun(f):
    """square-free factors f1, f2, ... with f = c * f1 * f2^2 * ..."""
    out = []
    d = _pd(f)
    a = _pgcd(f, d)
    b = _pdiv(f, a)[0]
    c = _pdiv(d, a)[0]
    while len(b) > 1:
        e = [x - y for x, y in _zip(c, _pd(b))]
        e = _pt(e)
        g = _pgcd(b, e) if any(e) else [x / b[-1] for x in b]
        out.append(g)
        b = _pdiv(b, g)[0]
        c = _pdiv(e, g)[0]
    return out


def _zip(a, b):
    n = max(len(a), len(b))
    z = Fraction(0)
    return [(a[i] if i < len(a) else z, b[i] if i < len(b) else z) for i in range(n)]


def _sturm(f, l, h):
    """number of distinct roots of the square-free f in the open interval (l, h)"""
    if len(f) < 2:
        return 0
    for e in (l, h):
        if _pe(f, e) == 0:
            f = _pdiv(f, [-e, Fraction(1)])[0]
    if len(f) < 2:
        return 0
    seq = [f, _pd(f)]
    while any(seq[-1]) and len(seq[-1]) > 1:
        seq.append([-x for x in _pdiv(seq[-2], seq[-1])[1]])
    if not any(seq[-1]):
        seq.pop()

    def var(x):
        s = [v for v in (_pe(q, x) for q in seq) if v != 0]
        return sum(1 for i in range(len(s) - 1) if (s[i] > 0) != (s[i + 1] > 0))

    return var(l) - var(h)


def _ends(a, env):
    out = []
    b = env.bounds.get(a)
    if b is not None:
        out.append((b[0], b[1], False))
    if a.kind == "sig":
        out.append((T.ZERO, T.ONE, True))
    r = rng_atom(a, env)
    l = None if r[0] == -INF else T.const(r[0])
    h = None if r[1] == INF else T.const(r[1])
    if a.kind == "exp":
        out.append((T.const(r[0]), h, True))
    elif l is not None or h is not None:
        if a.kind != "sig" or r != (0, 1):
            out.append((l, h, False))
    return out


def _split(a, p, env, strict, depth):
    base, cuts, pieces = a.args
    bl, bh = rng(base, env)
    for j in range(len(pieces)):
        lo = cuts[j - 1] if j > 0 else None
        hi = cuts[j] if j < len(cuts) else None
        if lo is not None and (_c(lo[0]) > bh or (_c(lo[0]) == bh and lo[1] == 1)):
            continue
        if hi is not None and (_c(hi[0]) < bl or (_c(hi[0]) == bl and hi[1] == 0)):
            continue
        q = T.restrict(p, base, lo, hi)
        e2 = env.copy()
        if lo is not None:
            d = T.sub(base, T.const(_c(lo[0])))
            (e2.facts if lo[1] == 0 else e2.strict).append(d)
        if hi is not None:
            d = T.sub(T.const(_c(hi[0])), base)
            (e2.facts if hi[1] == 1 else e2.strict).append(d)
        if lo is not None and hi is not None and lo[0] == hi[0]:
            pass
        tighten(e2, base, lo, hi)
        if contradictory(e2):
            continue
        q = pin(q, e2, base)
        if not _prove(q, e2, strict, depth - 1):
            return False
    return True


def tighten(env, base, lo, hi):
    """move a bound on  c*a + k  (a an atom) into the bounds of a"""
    nl = {m: c for m, c in base.terms.items() if m}
    if len(nl) != 1:
        return
    (m, c), = nl.items()
    if len(m) != 1 or m[0][1] != 1:
        return
    a = m[0][0]
    k = base.terms.get((), Fraction(0))
    b = env.bounds.get(a, (None, None))
    l, h = b
    v1 = (_c(lo[0]) - k) / c if lo is not None else None
    v2 = (_c(hi[0]) - k) / c if hi is not None else None
    if c < 0:
        v1, v2 = v2, v1
    def better(old, new, up):
        if new is None:
            return old
        if old is None:
            return T.const(new)
        o = T.cval(old)
        if o is None:
            return old
        return T.const(min(o, new) if up else max(o, new))
    env.bounds[a] = (better(l, v1, False), better(h, v2, True))


def pin(q, env, base):
    """replace an atom whose interval is a single point by that point"""
    for m in base.terms:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            b = env.bounds.get(a)
            if b and b[0] is not None and b[1] is not None and b[0] is b[1] and T.cval(b[0]) is not None:
                q = T.subst(q, {a: b[0]})
    return q


def contradictory(env):
    """some strict fact is refuted by interval arithmetic"""
    for b in env.bounds.values():
        if b[0] is not None and b[1] is not None:
            l, h = T.cval(b[0]), T.cval(b[1])
            if l is not None and h is not None and l > h:
                return True
    for s in env.strict:
        if rng(s, env)[1] <= 0:
            return True
    for s in env.facts:
        if rng(s, env)[1] < 0:
            return True
    for i, s in enumerate(env.strict):
        for f in env.facts + env.strict[i + 1:]:
            c = T.cval(T.add(s, f))
            if c is not None and c <= 0:
                return True
    for i, s in enumerate(env.facts):
        for f in env.facts[i + 1:]:
            c = T.cval(T.add(s, f))
            if c is not None and c < 0:
                return True
    return False


def _frac(p):
    """(denominator, numerator) for one multi-term denominator of p"""
    k = {}
    for m in p.terms:
        for a, e in m:
            if a.kind == "poly" and isinstance(e, int) and e < 0:
                k[a] = max(k.get(a, 0), -e)
    if not k:
        return None, None
    a = min(k, key=lambda x: x.uid)
    base = a.args[0]
    n = T.ZERO
    for m, c in p.terms.items():
        e = sum(x[1] for x in m if x[0] is a)
        mm = tuple(x for x in m if x[0] is not a)
        n = T.add(n, T.mul(T._mkpoly({mm: c}), T.ipow(base, k[a] + e)))
    return T.ipow(base, k[a]), n


def _monotone(p, env, strict, depth):
    (m1, c1), (m2, c2) = list(p.terms.items())
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    if c1 <= 0 or c2 >= 0:
        return False
    # c1*m1 >= -c2*m2 with both positive: compare logarithms
    for m in (m1, m2):
        for a, e in m:
            if not atom_strictly_pos(a, env):
                return _headed(m1, c1, m2, c2, env, strict, depth)
    has = any(a.kind in ("exp",) for m in (m1, m2) for a, _ in m)
    if has:
        l = T.sub(T.log(T._mkpoly({m1: c1})), T.log(T._mkpoly({m2: -c2})))
        if _prove(l, env, strict, depth - 1):
            return True
    return _headed(m1, c1, m2, c2, env, strict, depth)


def _headed(m1, c1, m2, c2, env, strict, depth):
    if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
        a, b = m1[0][0], m2[0][0]
        if a.kind == b.kind and a.kind in ("sig", "log", "exp"):
            return _prove(T.sub(a.args[0], b.args[0]), env, strict, depth - 1)
    return False
