"""Value numbers: hash-consed scalar terms in normal form.

A scalar value is a Poly: a finite sum of monomials over Atoms with exact rational
coefficients.  Atoms are inputs (var), index variables (idx), symbolic lengths (dim),
function applications (fn, exp, log, sig), piecewise nodes (pw), bound reductions
(sum/prod/redmax/...), selections (pick) and opaque applications (app).
Two values with the same normal form are the same object.
Real-number semantics; lengths are generic (>= 4).
"""

from fractions import Fraction
from math import gcd

DIM_MIN = 4
EXPAND_SUM = 8  # constant-length reductions up to this length are written out
MAX_TERMS = 20000


class Undecided(Exception):
    """The analyser has no model for something it would need."""


class TooBig(Undecided):
    pass


# ---------------------------------------------------------------- interning
_atoms = {}
_polys = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "uid", "bvh", "free", "loc", "isint", "isbool", "size")

    def __repr__(self):
        return fmt_atom(self)


class Poly:
    __slots__ = ("terms", "uid", "bvh", "free", "_h", "isint", "size")

    def __repr__(self):
        return fmt(self)

    # arithmetic sugar
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return power(self, P(o))


_loc = [None]


def set_loc(l):
    _loc[0] = l


def _collect(args):
    bvh = 0
    free = frozenset()
    size = 1
    for a in args:
        if isinstance(a, (Atom, Poly)):
            if a.bvh > bvh:
                bvh = a.bvh
            free = free | a.free
            size += a.size
        elif isinstance(a, tuple):
            b, f, s = _collect(a)
            bvh = max(bvh, b)
            free = free | f
            size += s
    return bvh, free, size


BINDERS = ("sum", "prod", "redmax", "redmin", "redany", "lam")


def atom(kind, *args, isint=False, isbool=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = args
    a.uid = len(_atom_list)
    a.loc = _loc[0]
    bvh, free, size = _collect(args)
    if kind in BINDERS:
        # args = (level, count, body, ...)
        lvl = args[0]
        bvh = max(bvh, lvl)
        free = frozenset(f for f in free if not (f.kind == "bv" and f.args[0] == lvl))
    if kind in ("var", "idx", "dim", "bv"):
        free = free | frozenset((a,))
    a.bvh = bvh
    a.free = free
    a.size = size
    a.isbool = isbool
    a.isint = isint or isbool or kind in ("idx", "dim", "bv")
    _atoms[key] = a
    _atom_list.append(a)
    return a


def _mkpoly(terms):
    key = frozenset([(m, c.numerator, c.denominator) for m, c in terms.items()])
    p = _polys.get(key)
    if p is not None:
        return p
    p = Poly()
    p.terms = terms
    p.uid = len(_polys)
    bvh = 0
    free = set()
    isint = True
    size = 1
    for m, c in terms.items():
        if c.denominator != 1:
            isint = False
        size += 1
        for a, e in m:
            size += a.size
            if a.bvh > bvh:
                bvh = a.bvh
            if a.free:
                free |= a.free
            if not a.isint or e < 0 or not isinstance(e, int):
                isint = False
    p.bvh = bvh
    p.free = frozenset(free)
    p.isint = isint
    p.size = size
    _polys[key] = p
    return p


def const(c):
    if isinstance(c, bool):
        c = int(c)
    c = Fraction(c)
    if c == 0:
        return _mkpoly({})
    return _mkpoly({(): c})


ZERO = const(0)
ONE = const(1)


def of_atom(a):
    return _mkpoly({((a, 1),): Fraction(1)})


INF = of_atom(atom("inf"))
NAN = of_atom(atom("nan"))
PI = of_atom(atom("pi"))
STRICT_NAN = False  # set by checks that look for values that are not finite: 1/0 is then a NaN that absorbs


def poisoned(p):
    return any(a.kind == "nan" for a in all_atoms(p))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return of_atom(x)
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
        if x != x:
            return NAN
        return const(Fraction(repr(x)))
    raise Undecided("not a scalar: %r" % (x,))


def is_const(p):
    return not p.terms or (len(p.terms) == 1 and () in p.terms)


def cval(p):
    """constant value or None"""
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1:
        return p.terms.get(())
    return None


def single_atom(p):
    if len(p.terms) == 1:
        ((m, c),) = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


# ------------------------------------------------------------ poly arithmetic
def _akey(ae):
    return ae[0].uid


def add(a, b):
    a = P(a)
    b = P(b)
    if STRICT_NAN and (poisoned(a) or poisoned(b)):
        return NAN
    if not a.terms:
        return b
    if not b.terms:
        return a
    t = dict(a.terms)
    for m, c in b.terms.items():
        n = t.get(m, 0) + c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = n
    return _finish(t)


def neg(a):
    a = P(a)
    return _mkpoly({m: -c for m, c in a.terms.items()})


def sub(a, b):
    return add(a, neg(P(b)))


def scale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return _mkpoly({m: k * c for m, k in a.terms.items()})


def _mono_mul(m1, m2):
    """product of monomials -> (mono, list of extra Poly factors)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    touched = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            touched = True
            if n == 0:
                del d[a]
            else:
                d[a] = _ix(n)
        else:
            d[a] = e
    return _norm_mono(d, touched)


def _ix(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def _norm_mono(d, touched=True):
    exps = [a for a in d if a.kind == "exp"]
    extra = None
    if len(exps) > 1 or any(d[a] != 1 for a in exps):
        tot = ZERO
        for a in exps:
            tot = add(tot, scale(a.args[0], Fraction(d.pop(a))))
        extra = [exp(tot)]
    if touched or extra:
        for a in list(d):
            e = d[a]
            k = a.kind
            if k == "poly" and e > 0 and e >= 1:
                ip = int(e)
                fr = e - ip
                if fr:
                    d[a] = _ix(fr)
                else:
                    del d[a]
                extra = (extra or []) + [ipow(a.args[0], ip)]
            elif k == "sig" and (e < 0):
                # 1/sig(z) = 1 + exp(-z)
                if isinstance(e, int):
                    del d[a]
                    extra = (extra or []) + [ipow(add(ONE, exp(neg(a.args[0]))), -e)]
            elif a.isbool and isinstance(e, int) and e > 1:
                d[a] = 1
            elif k == "fn" and a.args[0] == "croot" and e >= a.args[2]:
                # croot(c, n) ** n = c
                q, r = divmod(int(e), a.args[2])
                if r:
                    d[a] = r
                else:
                    del d[a]
                extra = (extra or []) + [const(a.args[1] ** q)]
    return tuple(sorted(d.items(), key=_akey)), extra


def mul(a, b):
    a = P(a)
    b = P(b)
    if STRICT_NAN and (poisoned(a) or poisoned(b)):
        return NAN
    if not a.terms or not b.terms:
        return ZERO
    ca = cval(a)
    if ca is not None:
        return scale(b, ca)
    cb = cval(b)
    if cb is not None:
        return scale(a, cb)
    if len(a.terms) * len(b.terms) > MAX_TERMS:
        raise TooBig("product too large")
    t = {}
    extras = []
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex:
                q = _mkpoly({m: c})
                for x in ex:
                    q = mul(q, x)
                extras.append(q)
            else:
                n = t.get(m, 0) + c
                if n == 0:
                    t.pop(m, None)
                else:
                    t[m] = n
    for q in extras:
        for m, c in q.terms.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
    return _finish(t)


def ipow(a, n):
    """nonnegative integer power by repeated multiplication"""
    if n == 0:
        return ONE
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def _negpolys(t):
    s = {}
    for m in t:
        for a, e in m:
            if a.kind == "poly" and e < 0:
                s[a] = min(s.get(a, 0), e)
    return s


_in_finish = [0]


def _finish(t):
    """single-fraction normal form with cancellation"""
    if len(t) > 1:
        negs = _negpolys(t)
        if negs and _in_finish[0] < 6:
            _in_finish[0] += 1
            try:
                t = _canon_frac(t, negs)
            finally:
                _in_finish[0] -= 1
    return _mkpoly(t)


def _canon_frac(t, negs):
    for a in sorted(negs, key=lambda x: x.uid):
        k = negs[a]
        if not isinstance(k, int):
            continue
        pb = a.args[0]
        # group by exponent of a (only integer exponents take part)
        groups = {}
        rest = {}
        for m, c in t.items():
            e = 0
            mm = m
            for x, ex in m:
                if x is a:
                    e = ex
                    mm = tuple(p for p in m if p[0] is not a)
            if isinstance(e, int):
                groups.setdefault(e, {})[mm] = c
            else:
                rest[m] = c
        if len(t) > 400 or (-k) > 6:
            continue
        # numerator over a**k
        num = ZERO
        for e, tt in groups.items():
            num = add(num, mul(_mkpoly(tt), ipow(pb, e - k)))
        # cancel
        kk = k
        while kk < 0 and num.terms:
            q = divexact(num, pb)
            if q is None:
                break
            num = q
            kk += 1
        nt = dict(rest)
        for m, c in num.terms.items():
            if kk != 0:
                m2, ex = _mono_mul(m, ((a, kk),))
                if ex:
                    q = _mkpoly({m2: c})
                    for x in ex:
                        q = mul(q, x)
                    for m3, c3 in q.terms.items():
                        n = nt.get(m3, 0) + c3
                        if n == 0:
                            nt.pop(m3, None)
                        else:
                            nt[m3] = n
                    continue
                m = m2
            n = nt.get(m, 0) + c
            if n == 0:
                nt.pop(m, None)
            else:
                nt[m] = n
        t = nt
    return t


def _lead(terms):
    """leading monomial under a fixed (uid-lexicographic) monomial order"""
    return max(terms, key=_mono_order)


def _mono_order(m):
    # lex order by atom uid: compare exponent vectors; represent as tuple of (-uid, e)
    return tuple((-a.uid, e) for a, e in m)


def _lex_key(m, atoms):
    d = dict(m)
    return tuple(d.get(a, 0) for a in atoms)


def divexact(p, q):
    """p / q if q divides p exactly (as polynomials), else None"""
    r, rem = divrem(p, q)
    if rem.terms:
        return None
    return r


def divrem(p, q, limit=4000):
    atoms = set()
    for t in (p.terms, q.terms):
        for m in t:
            for a, e in m:
                atoms.add(a)
    # atoms of q first so the division is "in" q's variables
    qa = set(a for m in q.terms for a, e in m)
    atoms = sorted(atoms, key=lambda a: (a not in qa, a.uid))
    lk = {m: _lex_key(m, atoms) for m in q.terms}
    ql = max(q.terms, key=lambda m: lk[m])
    qlk = lk[ql]
    qc = q.terms[ql]
    qlk_nz = [(i, e) for i, e in enumerate(qlk) if e]
    rem = {}
    cur = {_lex_key(m, atoms): c for m, c in p.terms.items()}
    qk = {lk[m]: c for m, c in q.terms.items()}
    quot = {}
    n = 0
    while cur:
        n += 1
        if n > limit:
            return ZERO, p
        lm = max(cur)
        c = cur.pop(lm)
        ok = all(lm[i] >= e for i, e in qlk_nz) and all(
            isinstance(lm[i], int) or lm[i] == e for i, e in qlk_nz
        )
        if not ok:
            rem[lm] = c
            continue
        f = tuple(x - y for x, y in zip(lm, qlk))
        fc = c / qc
        quot[f] = quot.get(f, 0) + fc
        for m, cc in qk.items():
            if m == qlk:
                continue
            k = tuple(x + y for x, y in zip(f, m))
            v = cur.get(k, 0) - fc * cc
            if v == 0:
                cur.pop(k, None)
            else:
                cur[k] = v

    def back(d):
        out = {}
        for k, c in d.items():
            if c == 0:
                continue
            m = tuple(sorted(((a, _ix(e)) for a, e in zip(atoms, k) if e), key=_akey))
            out[m] = c
        return _mkpoly(out)

    return back(quot), back(rem)


def content(p):
    """(coef, mono, primitive part): p = coef * mono * prim, prim leading coef 1"""
    items = list(p.terms.items())
    m0 = dict(items[0][0])
    for m, c in items[1:]:
        d = dict(m)
        for a in list(m0):
            e1 = m0[a]
            e2 = d.get(a, 0)
            if e1 > 0 and e2 > 0:
                m0[a] = min(e1, e2)
            elif e1 < 0 or e2 < 0:
                m0[a] = min(e1, e2)
            else:
                m0[a] = 0
            if m0[a] == 0:
                del m0[a]
        for a, e2 in d.items():
            if e2 < 0 and a not in dict(items[0][0]):
                if a not in m0:
                    m0[a] = e2
                else:
                    m0[a] = min(m0[a], e2)
    # exp atoms cannot be handled by exponents
    for a in list(m0):
        if a.kind == "exp":
            if not all(dict(m).get(a, 0) == 1 for m, c in items):
                del m0[a]
    mono = tuple(sorted(m0.items(), key=_akey))
    if mono:
        inv = {a: -e for a, e in mono}
        prim = {}
        for m, c in items:
            d = dict(m)
            for a, e in inv.items():
                n = d.get(a, 0) + e
                if n == 0:
                    d.pop(a, None)
                else:
                    d[a] = _ix(n)
            prim[tuple(sorted(d.items(), key=_akey))] = c
    else:
        prim = dict(p.terms)
    lead = max(prim, key=lambda m: _order_key(m))
    lc = prim[lead]
    prim = {m: c / lc for m, c in prim.items()}
    return lc, mono, _mkpoly(prim)


def _order_key(m):
    # deterministic, order: total degree then uids
    return (len(m) > 0, sum(abs(e) for a, e in m), tuple((-a.uid, e) for a, e in m))


_pow_memo = {}


def pow_rat(a, e):
    """a ** e for a rational exponent"""
    a = P(a)
    e = _ix(Fraction(e))
    if e == 0:
        return ONE
    if e == 1:
        return a
    if isinstance(e, int) and e > 0 and len(a.terms) ** min(e, 10) < 40000:
        c = cval(a)
        if c is not None:
            return const(c**e)
        return ipow(a, e)
    key = (a, e)
    if key in _pow_memo:
        return _pow_memo[key]
    r = _pow_rat(a, e)
    _pow_memo[key] = r
    return r


def _croot(c, e):
    """c ** e for rational c > 0 and fractional e -> Poly"""
    if c < 0:
        return of_atom(atom("fn", "cpow", const(c), const(e)))
    n = e.denominator
    num = e.numerator
    base = Fraction(c) ** num

    def iroot(x):
        r = round(x ** (1.0 / n))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k**n == x:
                return k
        return None

    a = iroot(base.numerator)
    b = iroot(base.denominator)
    if a is not None and b is not None:
        return const(Fraction(a, b))
    return of_atom(atom("fn", "croot", base, n))


def _pow_rat(a, e):
    if not a.terms:
        if STRICT_NAN and e < 0:
            return NAN
        return INF if e < 0 else ZERO
    c = cval(a)
    if c is not None:
        if isinstance(e, int):
            return const(Fraction(c) ** e)
        return _croot(c, e)
    lc, mono, prim = content(a)
    if not isinstance(e, int) and lc < 0:
        # keep sign inside
        prim = neg(prim)
        lc = -lc
    out = const(Fraction(lc) ** e) if isinstance(e, int) else _croot(lc, e)
    d = {}
    for x, k in mono:
        d[x] = _ix(k * e)
    if d:
        m, ex = _norm_mono(d)
        q = _mkpoly({m: Fraction(1)})
        for x in ex or ():
            q = mul(q, x)
        out = mul(out, q)
    if prim is not ONE:
        cp = cval(prim)
        if cp is not None:
            out = mul(out, pow_rat(prim, e))
        else:
            r = None
            if isinstance(e, int) and e < 0:
                r = _inv_special(prim, e)
            if r is None:
                if isinstance(e, int) and e > 0:
                    r = of_atom(atom("fn", "ipow", prim, e))
                else:
                    r = _mkpoly({((atom("poly", prim), e),): Fraction(1)})
            out = mul(out, r)
    return out


def _inv_special(prim, e):
    """1/(1 - sig(z)) = 1 + exp(z);  1/(1+exp(z)) = sig(-z)"""
    if len(prim.terms) != 2:
        return None
    for m, c in prim.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            k = prim.terms.get(())
            if k is None:
                continue
            if x.kind == "sig" and k == -c:
                return mul(const(Fraction(1) / (-c) ** (-e)), ipow(add(ONE, exp(x.args[0])), -e))
            if x.kind == "exp" and k == c:
                return mul(const(Fraction(1) / c ** (-e)), ipow(sigmoid(neg(x.args[0])), -e))
        # a*exp(p) + b  handled only for a == b via log shift
        elif len(m) >= 1:
            k = prim.terms.get(())
            ex = [x for x, ee in m if x.kind == "exp"]
            if k is not None and len(ex) == 1 and k == c:
                # 1 + mono*exp(z): = 1+exp(z+log(mono))
                others = tuple(p for p in m if p[0] is not ex[0])
                z = add(ex[0].args[0], log(_mkpoly({others: Fraction(1)})))
                return mul(const(Fraction(1) / c ** (-e)), ipow(sigmoid(neg(z)), -e))
    return None


def div(a, b):
    return mul(P(a), pow_rat(P(b), -1))


def power(a, b):
    a = P(a)
    b = P(b)
    cb = cval(b)
    if cb is not None:
        return pow_rat(a, cb)
    ca = cval(a)
    if ca == 1:
        return ONE
    return exp(mul(b, log(a)))


# ------------------------------------------------------------- exp/log/sigmoid
def exp(p):
    p = P(p)
    if not p.terms:
        return ONE
    out = ONE
    rest = {}
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "log":
            arg = m[0][0].args[0]
            ca = cval(arg)
            if ca is not None:
                if c.denominator == 1:
                    out = mul(out, const(ca ** int(c)))
                    continue
            elif c.denominator <= 4:
                out = mul(out, pow_rat(arg, c))
                continue
        if len(m) == 1 and m[0][0].kind == "inf":
            return INF if c > 0 else ZERO
        rest[m] = c
    if rest:
        out = mul(out, of_atom(atom("exp", _mkpoly(rest))))
    return out


def log(p):
    p = P(p)
    c = cval(p)
    if c is not None:
        if c == 1:
            return ZERO
        if c > 0:
            return _logconst(c)
        return of_atom(atom("log", p)) if c < 0 else neg(INF)
    a = single_atom(p)
    if a is not None:
        if a.kind == "exp":
            return a.args[0]
        if a.kind == "inf":
            return INF
        return of_atom(atom("log", p))
    lc, mono, prim = content(p)
    if len(p.terms) == 1:
        out = ZERO
        if lc < 0:
            return of_atom(atom("log", p))
        out = _logconst(lc) if lc != 1 else ZERO
        for x, e in mono:
            if x.kind == "exp":
                out = add(out, scale(x.args[0], Fraction(e)))
            elif x.kind == "poly":
                out = add(out, scale(log(x.args[0]), Fraction(e)))
            else:
                out = add(out, scale(of_atom(atom("log", of_atom(x))), Fraction(e)))
        return out
    # a factor shared by numerator and denominator goes first
    r = _cancel(p, mono, prim)
    if r is not None:
        return log(r)
    # positive factors 1 - sigmoid
    if len(prim.terms) > 2:
        for s in sorted({a for m in prim.terms for a, k in m if a.kind == "sig"}, key=lambda a: a.uid):
            f = sub(ONE, of_atom(s))
            n = divexact(prim, f)
            if n is not None:
                return add(log(mul(mul(_mkpoly({mono: Fraction(1)}), n), lc)), log(f))
    # multi-term: pull out the content
    out = ZERO
    k = abs(lc)
    if k != 1:
        out = _logconst(k)
    if mono:
        out = add(out, log(_mkpoly({mono: Fraction(1)})))
    if lc < 0:
        prim = neg(prim)
    r = _log_special(prim)
    return add(out, r if r is not None else of_atom(atom("log", prim)))


def _cancel(p, mono, prim):
    """prim/D with prim = A*B and D = A*C, A the coefficient of a sigmoid in prim -> p with A cancelled"""
    for x, e in mono:
        if x.kind != "poly" or e != -1:
            continue
        for s in [None] + sorted({a for m in prim.terms for a, k in m if a.kind == "sig" and k == 1}, key=lambda a: a.uid):
            f = {}
            for m, c in prim.terms.items():
                if s is None or any(a is s for a, _ in m):
                    f[tuple(q for q in m if q[0] is not s)] = c
            f = _mkpoly(f)
            if len(f.terms) < 2:
                continue
            n, d = divexact(prim, f), divexact(x.args[0], f)
            if n is None or d is None:
                continue
            rest = _mkpoly({tuple(q for q in mono if q[0] is not x): Fraction(1)})
            return mul(scale(mul(n, rest), content(p)[0]), pow_rat(d, -1))
    return None


def _log_special(p):
    """log(1 - sig(z)) = log sig(z) - z ;  log(1 + exp(z)) = z - log sig(z)"""
    if len(p.terms) != 2 or p.terms.get(()) != 1:
        return None
    for m, c in p.terms.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if a.kind == "sig" and c == -1:
            return sub(of_atom(atom("log", of_atom(a))), a.args[0])
        if a.kind == "exp" and c == 1:
            return neg(log(sigmoid(neg(a.args[0]))))
    return None


def _logconst(c):
    """log of a positive rational; powers of ten expressed through log(10)"""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    k = 0
    while n % 10 == 0:
        n //= 10
        k += 1
    while d % 10 == 0:
        d //= 10
        k -= 1
    out = ZERO
    if k:
        out = scale(of_atom(atom("log", const(10))), Fraction(k))
    r = Fraction(n, d)
    if r != 1:
        if r < 1 and r.numerator == 1:
            out = add(out, neg(of_atom(atom("log", const(1 / r)))))
        else:
            out = add(out, of_atom(atom("log", const(r))))
    return out


LN10 = of_atom(atom("log", const(10)))


def log10(p):
    return div(log(p), LN10)


def exp10(p):
    return exp(mul(p, LN10))


def sigmoid(z):
    z = P(z)
    if not z.terms:
        return const(Fraction(1, 2))
    # sig(sum c_i log X_i) with integer c_i is rational
    allog = True
    for m, c in z.terms.items():
        if not (
            len(m) == 1
            and m[0][1] == 1
            and m[0][0].kind == "log"
            and c.denominator == 1
        ):
            allog = False
            break
    if allog:
        e = exp(neg(z))
        return pow_rat(add(ONE, e), -1)
    lead = max(z.terms, key=_order_key)
    if len(z.terms) == 1 and lead and lead[0][0].kind == "inf":
        return ONE if z.terms[lead] > 0 else ZERO
    if z.terms[lead] < 0:
        return sub(ONE, of_atom(atom("sig", neg(z))))
    return of_atom(atom("sig", z))


def fn(name, *args):
    args = tuple(P(a) for a in args)
    return of_atom(atom("fn", name, *args))


def app(name, *args, isint=False, isbool=False):
    return of_atom(atom("app", name, *args, isint=isint, isbool=isbool))


def var(name, *idx, sort="real"):
    return of_atom(
        atom("var", name, sort, *[P(i) for i in idx], isint=sort == "int", isbool=sort == "bool")
    )


DIMVAL = {}
DIMS_USED = set()


def dim(name):
    DIMS_USED.add(name)
    if name in DIMVAL:
        return const(DIMVAL[name])
    return of_atom(atom("dim", name))


_fresh = [0]


def fresh_idx(n, hint="i"):
    _fresh[0] += 1
    return of_atom(atom("idx", "%s%d" % (hint, _fresh[0]), P(n)))


def any_idx(n, hint="i"):
    """an arbitrary position below n; the last one where n is a number (case distinctions on short arrays)"""
    c = cval(P(n))
    return fresh_idx(n, hint) if c is None or not DIMVAL else const(c - 1)


# ----------------------------------------------------- index/length reasoning
def lin_bounds(p):
    """(lo, hi) integer bounds of a linear index expression; None when unbounded.
    dims are >= DIM_MIN and unbounded above; idx in [0, dim)."""
    c = cval(p)
    if c is not None:
        return c, c
    lo = Fraction(0)
    hi = Fraction(0)
    for m, c in p.terms.items():
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None, None
        a = m[0][0]
        if a.kind == "dim":
            l, h = Fraction(DIM_MIN), None
        elif a.kind == "idx":
            n = cval(a.args[1])
            l, h = Fraction(0), (n - 1 if n is not None else None)
        elif a.kind == "bv":
            l, h = Fraction(0), None
        elif a.isbool:
            l, h = Fraction(0), Fraction(1)
        else:
            return None, None
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + c * l
        hi = None if (hi is None or h is None) else hi + c * h
    return lo, hi


def upper_subst(p):
    """upper bound of a linear index expression: idx atoms replaced by their last or first value,
    those whose extent depends on other idx atoms first"""
    for _ in range(12):
        ids = [m[0][0] for m in p.terms if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "idx"]
        if not ids:
            return p
        inner = set()
        for x in ids:
            for y in ids:
                if x is not y and x in all_atoms(y.args[1]):
                    inner.add(x)
        done = False
        for x in ids:
            if x in inner:
                continue
            m = ((x, 1),)
            c = p.terms[m]
            rest = {k: v for k, v in p.terms.items() if k != m}
            q = _mkpoly(rest)
            if c > 0:
                q = add(q, scale(sub(x.args[1], ONE), c))
            p = q
            done = True
        if not done:
            return p
    return p


def lower_subst(p):
    return neg(upper_subst(neg(p)))


def sign_lin(p):
    """sign of an index expression if determined: '<0','<=0','0','>=0','>0' or None"""
    if not p.terms:
        return "0"
    lo, hi = lin_bounds(lower_subst(p))
    if lo is not None:
        if lo > 0:
            return ">0"
        if lo == 0:
            return ">=0"
    lo, hi = lin_bounds(upper_subst(p))
    if hi is not None:
        if hi < 0:
            return "<0"
        if hi == 0:
            return "<=0"
    return None


def is_index_expr(p):
    for m, c in p.terms.items():
        if not m:
            if c.denominator != 1:
                return False
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind not in ("idx", "dim", "bv"):
            return False
        if c.denominator != 1:
            return False
    return True


# ------------------------------------------------------------------- piecewise
# atom('pw', base, cuts, pieces): cuts = ((c, s), ...) sorted; s=0: boundary just
# before c, s=1: just after c;  pieces: len(cuts)+1 Polys


def _cmp_cut(c1, c2):
    """-1, 0, 1 comparing cut positions; raises Undecided if not comparable"""
    d = sub(c1[0], c2[0])
    v = cval(d)
    if v is not None:
        if v < 0:
            return -1
        if v > 0:
            return 1
        return (c1[1] > c2[1]) - (c1[1] < c2[1])
    s = sign_lin(d)
    if s in ("<0",):
        return -1
    if s in (">0",):
        return 1
    raise Undecided("incomparable piecewise boundaries %r %r" % (c1, c2))


def norm_base(p):
    """p -> (base, offset, flip): p = k*(base - offset), k>0 if not flip else k<0"""
    if is_index_expr(p):
        # prefer an idx/bv atom with unit coefficient
        cands = [
            (m[0][0], c)
            for m, c in p.terms.items()
            if m and m[0][0].kind in ("idx", "bv") and abs(c) == 1
        ]
        n_idx = sum(1 for m in p.terms if m and m[0][0].kind in ("idx", "bv"))
        if len(cands) == 1 and n_idx == 1:
            a, c = cands[0]
            base = of_atom(a)
            rest = sub(p, scale(base, c))  # p = c*base + rest
            if c > 0:
                return base, neg(rest), False
            return base, rest, True
    terms = {m: c for m, c in p.terms.items() if m}
    k0 = p.terms.get((), Fraction(0))
    lead = max(terms, key=_order_key)
    lc = terms[lead]
    base = _mkpoly({m: c / lc for m, c in terms.items()})
    return base, const(-k0 / lc), lc < 0


_lt_memo = {}


def lt0(p):
    """truth value of p < 0"""
    p = P(p)
    r = _lt_memo.get(p)
    if r is None:
        r = _lt0(p, 0)
        _lt_memo[p] = r
    return r


def le0(p):
    return _lt0(P(p), 1)


def _lt0(p, side):
    """side 0: p<0; side 1: p<=0"""
    c = cval(p)
    if c is not None:
        return const(int(c < 0 or (side == 1 and c == 0)))
    if any(a.kind == "nan" for m in p.terms for a, _ in m):
        return ZERO  # every comparison with a NaN is false
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][0].kind == "inf":
            return const(int(c < 0))
    if is_index_expr(p):
        s = sign_lin(p)
        if s == "<0":
            return ONE
        if s in (">0",) or (s == ">=0" and side == 0):
            return ZERO
        if s == "<=0" and side == 1:
            return ONE
    # hoist piecewise operands
    a = _find_pw(p)
    if a is not None:
        return _map_pw(a, lambda q: _lt0(q, side), p)
    # strip positive common factors
    p = strip_pos(p)
    c = cval(p)
    if c is not None:
        return const(int(c < 0 or (side == 1 and c == 0)))
    base, off, flip = norm_base(p)
    if not flip:
        # base - off < 0
        cut = (off, side)
        return mk_pw(base, (cut,), (ONE, ZERO))
    cut = (off, 1 - side)
    return mk_pw(base, (cut,), (ZERO, ONE))


_pos_hook = [None]


def strip_pos(p):
    """divide out common monomial factors that are certainly positive"""
    if not p.terms:
        return p
    lc, mono, prim = content(p)
    keep = []
    for a, e in mono:
        if a.kind == "exp" or (a.kind == "sig"):
            continue
        if _pos_hook[0] is not None and _pos_hook[0](a):
            continue
        keep.append((a, e))
    q = _mkpoly({tuple(keep): lc})
    return mul(q, prim)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    d = sub(a, b)
    c = cval(d)
    if c is not None:
        return const(int(c == 0))
    if is_index_expr(d):
        s = sign_lin(d)
        if s in ("<0", ">0"):
            return ZERO
    for m, c in d.terms.items():
        if len(m) == 1 and m[0][0].kind == "inf":
            return ZERO
    pa = _find_pw(d)
    if pa is not None:
        return _map_pw(pa, lambda q: eq(q, ZERO), d)
    d = strip_pos(d)
    c = cval(d)
    if c is not None:
        return const(int(c == 0))
    base, off, flip = norm_base(d)
    return mk_pw(base, ((off, 0), (off, 1)), (ZERO, ONE, ZERO))


def _find_pw(p):
    best = None
    for m in p.terms:
        for a, e in m:
            if a.kind == "pw":
                if best is None or a.uid < best.uid:
                    best = a
    return best


def _map_pw(a, f, p):
    """apply f to p under each piece of the piecewise atom a occurring in p"""
    base, cuts, pieces = a.args
    outs = []
    for k, q in enumerate(pieces):
        lo = cuts[k - 1] if k > 0 else None
        hi = cuts[k] if k < len(cuts) else None
        outs.append(f(restrict(p, base, lo, hi)))
    return mk_pw(base, cuts, tuple(outs))


_restrict_memo = {}


def restrict(p, base, lo, hi):
    """simplify p knowing base lies between cuts lo and hi"""
    key = (p, base, lo, hi)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    if not _mentions_base(p, base):
        r = p
    else:

        def fa(a):
            if a.kind == "pw" and a.args[0] is base:
                return _restrict_pw(a, lo, hi)
            return None

        r = rewrite(p, fa)
    _restrict_memo[key] = r
    return r


_mb_memo = {}


def _mentions_base(p, base):
    key = (p, base)
    r = _mb_memo.get(key)
    if r is None:
        r = any(a.kind == "pw" and a.args[0] is base for a in all_atoms(p))
        _mb_memo[key] = r
    return r


def _restrict_pw(a, lo, hi):
    base, cuts, pieces = a.args
    ncuts = []
    npieces = [pieces[0]]
    for k, c in enumerate(cuts):
        try:
            if lo is not None and _cmp_cut(c, lo) <= 0:
                npieces = [pieces[k + 1]]
                ncuts = []
                continue
            if hi is not None and _cmp_cut(c, hi) >= 0:
                break
        except Undecided:
            pass
        ncuts.append(c)
        npieces.append(pieces[k + 1])
    npieces = [restrict(x, base, (ncuts[i - 1] if i > 0 else lo), (ncuts[i] if i < len(ncuts) else hi)) for i, x in enumerate(npieces)]
    if not ncuts:
        return npieces[0]
    return mk_pw(base, tuple(ncuts), tuple(npieces), restricted=True)


def at_point(p, base, c):
    """value of p at base == c when base is a plain atom; None if unknown"""
    a = single_atom(base)
    if a is not None and a.kind in ("idx", "bv", "var", "dim"):
        q = restrict(p, base, (c, 0), (c, 1))
        return subst(q, {a: c})
    return None


def _agree_at(p, q, base, c):
    if p is q:
        return True
    a = single_atom(base)
    if a is not None and a.kind in ("idx", "bv", "var"):
        try:
            return at_point(p, base, c) is at_point(q, base, c)
        except Undecided:
            return False
    d = sub(p, q)
    b = sub(base, c)
    neg_ = lambda t: any(x.kind == "poly" or (isinstance(e, int) and e < 0) for m in t.terms for x, e in m)
    if neg_(d):
        d = clear_denoms(d)
    if neg_(b):
        b = clear_denoms(b)
    try:
        return divexact(d, b) is not None
    except Undecided:
        return False


def mk_pw(base, cuts, pieces, restricted=False):
    cuts = list(cuts)
    pieces = list(pieces)
    isint = base.isint
    if isint:
        nc = []
        for c, s in cuts:
            v = cval(c)
            if v is not None:
                if v.denominator != 1:
                    # ceil, before
                    c = const(-((-v.numerator) // v.denominator))
                    s = 0
                elif s == 1:
                    c = add(c, ONE)
                    s = 0
            elif s == 1 and is_index_expr(c):
                c = add(c, ONE)
                s = 0
            nc.append((c, s))
        cuts = nc
    # boolean atoms / known ranges
    lo_val = hi_val = None
    ba = single_atom(base)
    if ba is not None:
        if ba.isbool:
            lo_val, hi_val = ZERO, ONE
        elif ba.kind == "idx":
            lo_val, hi_val = ZERO, sub(ba.args[1], ONE)
        elif ba.kind in ("bv",):
            lo_val = ZERO
    # drop cuts outside the range
    if lo_val is not None or hi_val is not None:
        i = 0
        while i < len(cuts):
            c, s = cuts[i]
            if lo_val is not None and s == 0 and sign_lin(sub(c, lo_val)) in ("<0", "<=0", "0"):
                # everything is >= c
                del pieces[: i + 1]
                del cuts[: i + 1]
                i = 0
                continue
            if hi_val is not None and s == 0 and sign_lin(sub(c, hi_val)) == ">0":
                del pieces[i + 1 :]
                del cuts[i:]
                break
            i += 1
    # drop empty pieces / duplicate cuts
    i = 0
    while i + 1 < len(cuts):
        if cuts[i] == cuts[i + 1]:
            del cuts[i + 1]
            del pieces[i + 1]
        else:
            i += 1
    if not restricted:
        for k in range(len(pieces)):
            lo = cuts[k - 1] if k > 0 else None
            hi = cuts[k] if k < len(cuts) else None
            if lo is not None or hi is not None:
                pieces[k] = restrict(pieces[k], base, lo, hi)
    # flatten: a piece that is itself a pw on the same base is already restricted;
    # splice it in
    i = 0
    while i < len(pieces):
        a = single_atom(pieces[i])
        if a is not None and a.kind == "pw" and a.args[0] is base:
            cuts[i:i] = list(a.args[1])
            pieces[i : i + 1] = list(a.args[2])
        else:
            i += 1
    changed = True
    while changed:
        changed = False
        # point pieces
        for i in range(1, len(pieces) - 1):
            (c0, s0), (c1, s1) = cuts[i - 1], cuts[i]
            point = None
            if s0 == 0 and s1 == 1 and c0 is c1:
                point = c0
            elif isint and s0 == 0 and s1 == 0 and sub(c1, c0) is ONE:
                point = c0
            if point is not None:
                if _agree_at(pieces[i], pieces[i + 1], base, point):
                    del pieces[i]
                    del cuts[i]
                    changed = True
                    break
                if _agree_at(pieces[i], pieces[i - 1], base, point):
                    del pieces[i]
                    del cuts[i - 1]
                    changed = True
                    break
        if changed:
            continue
        # first/last piece a single integer point because of the range
        if isint and len(cuts) >= 1:
            c0, s0 = cuts[0]
            if lo_val is not None and s0 == 0 and sub(c0, lo_val) is ONE:
                if _agree_at(pieces[0], pieces[1], base, lo_val):
                    del pieces[0]
                    del cuts[0]
                    changed = True
                    continue
            c1, s1 = cuts[-1]
            if hi_val is not None and s1 == 0 and c1 is hi_val:
                if _agree_at(pieces[-1], pieces[-2], base, hi_val):
                    del pieces[-1]
                    del cuts[-1]
                    changed = True
                    continue
        for i in range(len(cuts)):
            if pieces[i] is pieces[i + 1]:
                del cuts[i]
                del pieces[i + 1]
                changed = True
                break
    if not cuts:
        return pieces[0]
    # boundary convention where both sides agree at the boundary
    if not isint:
        for i, (c, s) in enumerate(cuts):
            if s == 1 and _agree_at(pieces[i], pieces[i + 1], base, c):
                cuts[i] = (c, 0)
    isb = all(x is ONE or x is ZERO for x in pieces)
    a = atom("pw", base, tuple(cuts), tuple(pieces), isbool=isb, isint=isb or all(x.isint for x in pieces))
    return of_atom(a)


def truth(c):
    """numeric -> truth value (0/1)"""
    c = P(c)
    if is_bool(c):
        return c
    e = eq(c, ZERO)
    return sub_bool(e)


def is_bool(c):
    v = cval(c)
    if v is not None:
        return v in (0, 1)
    a = single_atom(c)
    if a is None:
        return False
    return a.isbool or (a.kind == "pw" and all(is_bool(p) for p in a.args[2]))


def sub_bool(e):
    return ite(e, ZERO, ONE)


def b_not(a):
    return ite(a, ZERO, ONE)


def b_and(a, b):
    return ite(a, truth(b), ZERO)


def b_or(a, b):
    return ite(a, ONE, truth(b))


_ite_memo = {}


def ite(c, a, b):
    c = P(c)
    a = P(a)
    b = P(b)
    v = cval(c)
    if v is not None:
        return a if v != 0 else b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is None:
        r = _ite(c, a, b)
        _ite_memo[key] = r
    return r


def _ite(c, a, b):
    p = _find_pw(c)
    if p is not None:
        base, cuts, pieces = p.args
        outs = []
        for k in range(len(pieces)):
            lo = cuts[k - 1] if k > 0 else None
            hi = cuts[k] if k < len(cuts) else None
            ck = restrict(c, base, lo, hi)
            outs.append(
                ite(ck, restrict(a, base, lo, hi), restrict(b, base, lo, hi))
            )
        return mk_pw(base, cuts, tuple(outs), restricted=True)
    # boolean atom
    for m in sorted(c.terms, key=_order_key):
        for x, e in m:
            if x.isbool:
                base = of_atom(x)
                c0 = subst(c, {x: ZERO})
                c1 = subst(c, {x: ONE})
                return mk_pw(base, ((ONE, 0),), (ite(c0, a, b), ite(c1, a, b)))
    # numeric truthiness
    return ite(b_not_raw(eq(c, ZERO)), a, b)


def b_not_raw(e):
    return ite(e, ZERO, ONE)


def tmax(a, b):
    a, b = P(a), P(b)
    if a is INF or b is INF:
        return INF
    if a is neg(INF):
        return b
    if b is neg(INF):
        return a
    return ite(lt(a, b), b, a)


def tmin(a, b):
    a, b = P(a), P(b)
    if a is INF:
        return b
    if b is INF:
        return a
    return ite(lt(a, b), a, b)


def tabs(a):
    a = P(a)
    return ite(lt0(a), neg(a), a)


# -------------------------------------------------------------- reductions
def _open(a, repl):
    """body of binder atom a with its bound variable replaced"""
    lvl = a.args[0]
    bv = atom("bv", lvl)
    return subst(a.args[2], {bv: P(repl)})


def close(kind, count, tmp, body, *extra):
    """build binder over tmp (an idx Poly)"""
    ta = single_atom(tmp)
    lvl = body.bvh + 1
    b = subst(body, {ta: of_atom(atom("bv", lvl))})
    lvl2 = b.bvh + 1 if b.bvh >= lvl else lvl
    if lvl2 != lvl:
        # substitution may have rebuilt binders; recompute
        lvl = lvl2
        b = subst(body, {ta: of_atom(atom("bv", lvl))})
    return of_atom(atom(kind, lvl, P(count), b, *extra))


def tsum(count, f):
    """sum_{j<count} f(j); f takes an index Poly"""
    count = P(count)
    c = cval(count)
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= EXPAND_SUM:
            r = ZERO
            for j in range(int(c)):
                r = add(r, f(const(j)))
            return r
    tmp = fresh_idx(count, "s")
    body = f(tmp)
    return sum_body(count, tmp, body)


def sum_body(count, tmp, body):
    count = P(count)
    c = cval(count)
    ta = single_atom(tmp)
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= EXPAND_SUM:
            r = ZERO
            for j in range(int(c)):
                r = add(r, subst(body, {ta: const(j)}))
            return r
    indep = {}
    dep = {}
    for m, k in body.terms.items():
        if any(ta in a.free for a, e in m):
            dep[m] = k
        else:
            indep[m] = k
    out = mul(count, _mkpoly(indep)) if indep else ZERO
    if not dep:
        return out
    # index-piecewise bodies: split ranges
    d = _mkpoly(dep)
    pw = None
    for m in d.terms:
        for a, e in m:
            if a.kind == "pw" and a.args[0] is tmp:
                pw = a
                break
    if pw is not None:
        base, cuts, pieces = pw.args
        good = all(s == 0 and ta not in cc.free for cc, s in cuts)
        if good:
            pts = [ZERO] + [cc for cc, s in cuts] + [count]
            for x, y in zip(pts, pts[1:]):
                if sign_lin(sub(y, x)) not in ("0", ">=0", ">0"):
                    good = False
        if good:
            for k in range(len(pieces)):
                lo = cuts[k - 1] if k > 0 else None
                hi = cuts[k] if k < len(cuts) else None
                q = restrict(d, base, lo, hi)
                n = sub(pts[k + 1], pts[k])
                t2 = fresh_idx(n, "s")
                q2 = subst(q, {ta: add(t2, pts[k])})
                out = add(out, sum_body(n, t2, q2))
            return out
    lc, mono, prim = content(d)
    outer = {}
    inner = {}
    for a, e in mono:
        if ta in a.free:
            inner[a] = e
        else:
            outer[a] = e
    # negative-power content may reintroduce; recompose
    im = tuple(sorted(inner.items(), key=_akey))
    om = tuple(sorted(outer.items(), key=_akey))
    b = mul(_mkpoly({im: Fraction(1)}), prim)
    s = close("sum", count, tmp, b)
    return add(out, mul(_mkpoly({om: lc}), s))


def treduce(kind, count, f):
    """prod/redmax/redmin/redany over j<count"""
    count = P(count)
    c = cval(count)
    if c == 0:
        if kind in ("redmax", "redmin"):
            raise Undecided("extremum of nothing")
        return ONE if kind == "prod" else ZERO
    if c is not None and 0 < c <= EXPAND_SUM:
        r = f(ZERO)
        for j in range(1, int(c)):
            v = f(const(j))
            if kind == "prod":
                r = mul(r, v)
            elif kind == "redmax":
                r = tmax(r, v)
            elif kind == "redmin":
                r = tmin(r, v)
            elif kind == "redany":
                r = b_or(r, v)
        return r
    tmp = fresh_idx(count, "s")
    body = f(tmp)
    return reduce_body(kind, count, tmp, body)


def reduce_body(kind, count, tmp, body):
    count = P(count)
    c = cval(count)
    ta = single_atom(tmp)
    if c is not None and 0 < c <= EXPAND_SUM:
        return treduce(kind, count, lambda j: subst(body, {ta: j}))
    if ta not in body.free:
        if kind == "prod":
            if c is not None:
                return pow_rat(body, c)
            return power(body, count)
        return body
    r = close(kind, count, tmp, body)
    if kind == "redany":
        a = single_atom(r)
        a.isbool = True
        a.isint = True
    return r


def pick(idx, elems):
    idx = P(idx)
    c = cval(idx)
    n = len(elems)
    if c is not None:
        return elems[int(c)]
    if all(e is elems[0] for e in elems):
        return elems[0]
    a = single_atom(idx)
    if a is not None and a.isbool and n == 2:
        return ite(idx, elems[1], elems[0])
    isb = all(is_bool(e) for e in elems)
    return of_atom(atom("pick", idx, tuple(elems), isbool=isb, isint=all(e.isint for e in elems)))


# ------------------------------------------------------------- traversal
def rewrite(p, fa, memo=None):
    """rebuild p applying fa to atoms (pre-order); fa returns Poly or None"""
    if memo is None:
        memo = {}
    only = getattr(fa, "only", None)
    if only is not None and not (p.free & only):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    res = ZERO
    changed = False
    parts = []
    for m, c in p.terms.items():
        fs = []
        ch = False
        for a, e in m:
            q = _rw_atom(a, fa, memo)
            if q is not None:
                ch = True
            fs.append((a, e, q))
        if ch:
            changed = True
        parts.append((m, c, fs, ch))
    if not changed:
        memo[p] = p
        return p
    t = {m: c for m, c, fs, ch in parts if not ch}
    for m, c, fs, ch in parts:
        if not ch:
            continue
        q = const(c)
        plain = {}
        for a, e, n in fs:
            if n is None:
                plain[a] = e
        if plain:
            mm, ex = _norm_mono(dict(plain))
            q = _mkpoly({mm: c})
            for x in ex or ():
                q = mul(q, x)
        for a, e, n in fs:
            if n is not None:
                q = mul(q, pow_rat(n, e))
        if STRICT_NAN and poisoned(q):
            memo[p] = q
            return q
        for m2, c2 in q.terms.items():
            k = t.get(m2, 0) + c2
            if k == 0:
                t.pop(m2, None)
            else:
                t[m2] = k
    res = _finish(t) if t else ZERO
    memo[p] = res
    return res


def _rw_atom(a, fa, memo):
    """new Poly for atom or None when unchanged"""
    key = ("a", a)
    if key in memo:
        return memo[key]
    r = fa(a)
    if r is None:
        r = _rw_children(a, fa, memo)
    if r is not None and single_atom(r) is a:
        r = None
    memo[key] = r
    return r


def _rw_val(v, fa, memo):
    if isinstance(v, Poly):
        return rewrite(v, fa, memo)
    if isinstance(v, Atom):
        r = _rw_atom(v, fa, memo)
        return v if r is None else r
    if isinstance(v, tuple):
        n = tuple(_rw_val(x, fa, memo) for x in v)
        if all(x is y for x, y in zip(n, v)):
            return v
        return n
    return v


def _rw_children(a, fa, memo):
    k = a.kind
    if k in ("inf", "nan", "pi", "bv", "dim"):
        return None
    if k == "idx":
        return None
    if k in BINDERS:
        lvl, count, body = a.args[:3]
        ncount = rewrite(count, fa, memo)
        bv = atom("bv", lvl)
        if k == "sum" and lvl == 1 and ncount is count and getattr(fa, "closed", False):
            # renaming under the binder: nothing to renormalise while the body stays one plain product
            nb = rewrite(body, fa, memo)
            if nb is body:
                return None
            if plain_body(nb, bv) and nb.bvh == 1:
                return of_atom(atom("sum", lvl, count, nb))
        tmp = fresh_idx(ncount, "s")
        b2 = subst(body, {bv: tmp})
        nb = rewrite(b2, fa, {})
        if nb is b2 and ncount is count:
            return None
        extra = tuple(_rw_val(x, fa, memo) for x in a.args[3:])
        return rebuild_binder(k, ncount, tmp, nb, extra)
    nargs = tuple(_rw_val(x, fa, memo) for x in a.args)
    if all(x is y for x, y in zip(nargs, a.args)):
        return None
    return rebuild(k, nargs, a)


def plain_body(p, bv):
    """a sum body that sum_body would leave alone"""
    for m in p.terms:
        if not any(bv in a.free for a, e in m):
            return False
        for a, e in m:
            if a.kind not in ("app", "var", "log", "sig", "exp"):
                return False
    lc, mono, prim = content(p)
    return lc == 1 and all(bv in a.free for a, e in mono)


def rebuild_binder(k, count, tmp, body, extra=()):
    if k == "sum":
        return sum_body(count, tmp, body)
    if k == "lam":
        return close("lam", count, tmp, body, *extra)
    return reduce_body(k, count, tmp, body)


def rebuild(k, args, old=None):
    if k == "var":
        return of_atom(atom("var", *args, isint=old.isint, isbool=old.isbool))
    if k == "exp":
        return exp(args[0])
    if k == "log":
        return log(args[0])
    if k == "sig":
        return sigmoid(args[0])
    if k == "poly":
        return args[0]
    if k == "pw":
        base, cuts, pieces = args
        return rebuild_pw(base, cuts, pieces)
    if k == "pick":
        return pick(args[0], args[1])
    if k == "fn":
        if args[0] == "ipow":
            return pow_rat(args[1], args[2])
        return rebuild_fn(args, old)
    if k == "app":
        return rebuild_app(args, old)
    raise Undecided("rebuild " + k)


_fn_rebuilders = {}


def rebuild_fn(args, old):
    f = _fn_rebuilders.get(args[0])
    if f is not None:
        return f(*args[1:])
    return of_atom(atom("fn", *args, isint=old.isint, isbool=old.isbool))


def rebuild_app(args, old):
    f = _fn_rebuilders.get(("app", args[0]))
    if f is not None:
        return f(*args[1:])
    return of_atom(atom("app", *args, isint=old.isint, isbool=old.isbool))


def rebuild_pw(base, cuts, pieces):
    # express as nested conditions so that a changed base is renormalised
    r = pieces[-1]
    for (c, s), q in reversed(list(zip(cuts, pieces[:-1]))):
        d = sub(base, c)
        cond = _lt0(d, s)
        r = ite(cond, q, r)
    return r


_subst_memo = {}


def subst(p, mapping):
    """replace atoms by Polys"""
    if not mapping:
        return p
    keys = frozenset(mapping)
    if not (p.free & keys) and all(k.kind in ("var", "idx", "dim", "bv") for k in keys):
        return p
    mk = tuple(sorted(((k.uid, v.uid) for k, v in mapping.items())))
    key = (p, mk)
    r = _subst_memo.get(key)
    if r is not None:
        return r
    basic = all(k.kind in ("var", "idx", "dim", "bv") for k in keys)
    bvs = [k for k in keys if k.kind == "bv"]

    def fa(a):
        if a in mapping:
            return mapping[a]
        if basic and not (a.free & keys):
            return of_atom(a)
        return None

    if basic:
        fa.only = keys
        fa.closed = not bvs and all(P(v).bvh == 0 for v in mapping.values())
    r = rewrite(p, fa, {})
    _subst_memo[key] = r
    return r


def all_atoms(p):
    """every atom occurring anywhere below p"""
    seen = set()
    stack = [p]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        if isinstance(x, Poly):
            seen.add(x)
            for m in x.terms:
                for a, e in m:
                    stack.append(a)
        elif isinstance(x, Atom):
            seen.add(x)
            for y in x.args:
                if isinstance(y, (Poly, Atom, tuple)):
                    stack.append(y)
        elif isinstance(x, tuple):
            seen.add(x)
            for y in x:
                if isinstance(y, (Poly, Atom, tuple)):
                    stack.append(y)
    return [x for x in seen if isinstance(x, Atom)]


# -------------------------------------------------------------- derivative
def diff(p, v):
    """derivative of p with respect to atom v"""
    out = ZERO
    for m, c in p.terms.items():
        for k, (a, e) in enumerate(m):
            if v not in a.free:
                continue
            da = diff_atom(a, v)
            if da is ZERO:
                continue
            rest = dict(m)
            if e == 1:
                del rest[a]
            else:
                rest[a] = _ix(e - 1)
            mm, ex = _norm_mono(rest)
            q = _mkpoly({mm: c * e})
            for x in ex or ():
                q = mul(q, x)
            out = add(out, mul(q, da))
    return out


FLAT = frozenset(("stop", "round", "trunc", "floor", "ceil", "floordiv", "sign"))


def diff_atom(a, v):
    if a is v:
        return ONE
    k = a.kind
    if k == "exp":
        return mul(of_atom(a), diff(a.args[0], v))
    if k == "log":
        return div(diff(a.args[0], v), a.args[0])
    if k == "sig":
        s = of_atom(a)
        return mul(mul(s, sub(ONE, s)), diff(a.args[0], v))
    if k == "poly":
        return diff(a.args[0], v)
    if k == "pw":
        base, cuts, pieces = a.args
        return mk_pw(base, cuts, tuple(diff(q, v) for q in pieces))
    if k == "pick":
        return pick(a.args[0], tuple(diff(q, v) for q in a.args[1]))
    if k == "sum":
        tmp = fresh_idx(a.args[1], "s")
        return sum_body(a.args[1], tmp, diff(_open(a, tmp), v))
    if a.isint or a.isbool or k == "app" and a.args[0] in FLAT:
        return ZERO  # steps and values shielded from differentiation
    return of_atom(atom("app", "D", of_atom(a), of_atom(v)))


# ----------------------------------------------------------------- equality
def clear_denoms(d):
    """multiply by denominators (poly atoms and negative atom powers)"""
    for _ in range(12):
        negs = {}
        for m in d.terms:
            for a, e in m:
                if e < 0 and isinstance(e, int):
                    negs[a] = min(negs.get(a, 0), e)
        if not negs:
            return d
        a = sorted(negs, key=lambda x: x.uid)[0]
        k = -negs[a]
        t = {}

        def acc(q):
            for m, c in q.terms.items():
                n = t.get(m, 0) + c
                if n == 0:
                    t.pop(m, None)
                else:
                    t[m] = n

        if a.kind == "poly":
            base = a.args[0]
            powers = {}
            moved = False
            for m, c in d.terms.items():
                e = 0
                for x, ex in m:
                    if x is a:
                        e = ex
                n = k + e
                if isinstance(n, int) and n >= 0:
                    moved = True
                    if n not in powers:
                        powers[n] = ipow(base, n)
                    acc(_raw_mul(_mkpoly({tuple(p for p in m if p[0] is not a): c}), powers[n]))
                else:
                    acc(_mkpoly({m: c}))
            if not moved:
                return d
        else:
            for m, c in d.terms.items():
                mm, ex = _mono_mul(m, ((a, k),))
                q = _mkpoly({mm: c})
                for x in ex or ():
                    q = mul(q, x)
                acc(q)
        d = _mkpoly(t)
    return d


def _raw_add(a, b):
    t = dict(a.terms)
    for m, c in b.terms.items():
        n = t.get(m, 0) + c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = n
    return _mkpoly(t)


def _raw_mul(a, b):
    acc = ZERO
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m, ex = _mono_mul(m1, m2)
            q = _mkpoly({m: c1 * c2})
            for x in ex or ():
                q = mul(q, x)
            acc = _raw_add(acc, q)
    return acc


_zero_memo = {}


def equal(a, b, depth=14):
    a = P(a)
    b = P(b)
    if a is b:
        return True
    return is_zero(sub(a, b), depth)


def is_zero(d, depth=14):
    if not d.terms:
        return True
    key = (d, depth)
    r = _zero_memo.get(key)
    if r is None:
        try:
            r = _is_zero(d, depth)
        except TooBig:
            r = False
        _zero_memo[key] = r
    return r


def _is_zero(d, depth):
    if is_const(d):
        return False
    d2 = clear_denoms(d)
    if not d2.terms:
        return True
    if depth <= 0:
        return False
    if is_const(d2):
        return False
    # merge same-range sums
    d3 = _merge_sums(d2)
    if d3 is not d2:
        return is_zero(d3, depth - 1)
    # congruence: identify atoms whose arguments are equal
    top = sorted({a for m in d2.terms for a, e in m}, key=lambda a: a.uid)
    for i, a in enumerate(top):
        for b in top[i + 1 :]:
            if a.kind == b.kind and _congruent(a, b, depth - 1):
                q = subst_top(d2, b, of_atom(a))
                if q is not d2:
                    return is_zero(q, depth - 1)
    # case split on piecewise bases occurring outside binders
    base = _split_base(d2)
    if base is not None:
        b, cuts = base
        for k in range(len(cuts) + 1):
            lo = cuts[k - 1] if k > 0 else None
            hi = cuts[k] if k < len(cuts) else None
            q = restrict(d2, b, lo, hi)
            # single integer point: substitute
            ba = single_atom(b)
            if ba is not None and ba.kind == "idx":
                pt = None
                if lo is None and hi is not None and hi[1] == 0 and hi[0] is ONE:
                    pt = ZERO
                if lo is not None and hi is not None and sub(hi[0], lo[0]) is ONE and lo[1] == 0 and hi[1] == 0:
                    pt = lo[0]
                if hi is None and lo is not None and lo[1] == 0 and lo[0] is sub(ba.args[1], ONE):
                    pt = lo[0]
                if pt is not None:
                    q = subst(q, {ba: pt})
            elif ba is not None and ba.isbool:
                q = subst(q, {ba: const(k)}) if len(cuts) == 1 else q
            elif lo is not None and hi is not None and lo[0] is hi[0]:
                if ba is not None and ba.kind == "var":
                    q = subst(q, {ba: lo[0]})
                elif ba is None:
                    q = subst(q, _solve_point(b, lo[0]))
            if not is_zero(q, depth - 1):
                return False
        return True
    # enumerate picks over small constant ranges
    for a in top:
        if a.kind == "pick":
            ia = single_atom(a.args[0])
            if ia is not None and ia.kind == "idx":
                n = cval(ia.args[1])
                if n is not None and n <= 200:
                    return all(is_zero(subst(d2, {ia: const(k)}), depth - 1) for k in range(int(n)))
    for f in list(d2.free):
        if f.kind == "idx":
            n = cval(f.args[1])
            if n is not None and n <= 32 and any(a.kind == "pick" for a in all_atoms(d2)):
                return all(is_zero(subst(d2, {f: const(k)}), depth - 1) for k in range(int(n)))
    d4 = push_pieces(d2)
    if d4 is not d2 and d4 != d2:
        return is_zero(d4, depth - 1)
    return False


def _solve_point(base, value):
    """a substitution under which base == value, when base is linear in a variable of invertible coefficient"""
    for v in sorted({a for m in base.terms for a, e in m if a.kind == "var"}, key=lambda a: a.uid):
        hits = [m for m in base.terms if any(a is v for a, e in m)]
        if len(hits) != 1 or dict(hits[0])[v] != 1 or any(a.kind not in ("var", "exp") for a, e in hits[0]):
            continue
        m = hits[0]
        rest = sub(base, _mkpoly({m: base.terms[m]}))
        if v in all_atoms(rest):
            continue
        inv = _mkpoly({tuple((a, -e) for a, e in m if a is not v): 1 / Fraction(base.terms[m])})
        return {v: mul(sub(value, rest), inv)}
    return {}


def push_pieces(p):
    """powers of piecewise atoms become piecewise atoms of powers, pieces normalised to start at zero with scale one"""

    def has(q):
        return any(a.kind == "pw" and e > 1 for m in q.terms for a, e in m)

    todo = any(a.kind == "pw" for a in all_atoms(p)) and (
        has(p) or any(has(x) for a in all_atoms(p) for x in a.args if isinstance(x, Poly)))
    if not todo:
        return p

    def level(q):
        pws = sorted({a for m in q.terms for a, e in m if a.kind == "pw"}, key=lambda a: a.uid)
        for w in pws:
            groups, rest = {}, {}
            for m, c in q.terms.items():
                e = next((e for a, e in m if a is w), 0)
                if e == 0:
                    rest[m] = c
                elif e > 0 and e == int(e):
                    groups.setdefault(tuple(x for x in m if x[0] is not w), {})[int(e)] = c
                else:
                    return q
            out = _finish(rest) if rest else ZERO
            base, cuts, ps = w.args
            for m, poly in groups.items():
                new = []
                for v in ps:
                    x = ZERO
                    for e, c in poly.items():
                        x = add(x, scale(pow_rat(P(v), e), c))
                    new.append(x)
                sh = new[0] if is_const(new[0]) else ZERO
                new = [sub(x, sh) for x in new]
                sc = next((cval(x) for x in new if is_const(x) and cval(x) != 0), None)
                if sc is None:
                    x = next((x for x in new if x.terms), None)
                    sc = content(x)[0] if x is not None else Fraction(1)
                v = add(scale(mk_pw(base, cuts, [scale(x, 1 / sc) for x in new]), sc), sh)
                out = add(out, mul(_mkpoly({m: Fraction(1)}), v))
            q = out
        return q

    def deep(q, memo):
        r = memo.get(q)
        if r is not None:
            return r

        def fb(a):
            if a.kind in BINDERS:
                count, body = a.args[1], a.args[2]
                tmp = fresh_idx(count, "s")
                b2 = _open(a, tmp)
                nb = deep(b2, memo)
                if nb is b2:
                    return None
                return rebuild_binder(a.kind, count, tmp, nb, tuple(a.args[3:]))
            return None

        r = level(rewrite(q, fb))
        memo[q] = r
        return r

    return deep(p, {})


def subst_top(d, a, r):
    acc = ZERO
    for m, c in d.terms.items():
        e = 0
        for x, ex in m:
            if x is a:
                e = ex
        if e == 0:
            acc = add(acc, _mkpoly({m: c}))
        else:
            mm = tuple(p for p in m if p[0] is not a)
            acc = add(acc, mul(_mkpoly({mm: c}), pow_rat(r, e)))
    return acc


def _vals_equal(x, y, depth):
    if x is y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return is_zero(sub(x, y), depth)
    if isinstance(x, Atom) and isinstance(y, Atom):
        return x is y or (x.kind == y.kind and _congruent(x, y, depth))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_vals_equal(a, b, depth) for a, b in zip(x, y))
    return x == y


def _congruent(a, b, depth):
    if depth <= 0:
        return False
    k = a.kind
    if k in ("var",):
        if a.args[:2] != b.args[:2]:
            return False
        return _vals_equal(a.args[2:], b.args[2:], depth)
    if k in ("idx", "dim", "bv", "inf", "nan"):
        return False
    if k in BINDERS:
        if not _vals_equal(a.args[1], b.args[1], depth):
            return False
        tmp = fresh_idx(a.args[1], "s")
        if not _vals_equal(a.args[3:], b.args[3:], depth):
            return False
        return is_zero(sub(_open(a, tmp), _open(b, tmp)), depth)
    if k in ("exp", "log", "sig", "poly"):
        return is_zero(sub(a.args[0], b.args[0]), depth)
    if k in ("fn", "app"):
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return False
        return _vals_equal(a.args[1:], b.args[1:], depth)
    if k == "pick":
        return len(a.args[1]) == len(b.args[1]) and _vals_equal(a.args, b.args, depth)
    return False


def _merge_sums(d):
    """bring the sums of d to a common shape: counts without additive constants,
    piecewise bodies split, index offsets normalised, one sum per count.
    Uses only identities valid for summands extended to all integers."""
    groups = {}
    for m, c in d.terms.items():
        sums = [a for a, e in m if a.kind == "sum" and e == 1]
        if len(sums) == 1:
            a = sums[0]
            k = a.args[1].terms.get((), Fraction(0))
            key = a.args[1] if k == 0 or abs(k) > 8 else sub(a.args[1], const(k))
            groups.setdefault(key, []).append((m, c, a))
    out = d
    for count, lst in groups.items():
        rest = dict(out.terms)
        if any(m not in rest for m, c, a in lst):
            continue
        tmp = fresh_idx(count, "s")
        body = ZERO
        extra = ZERO
        for m, c, a in lst:
            mm = tuple(p for p in m if p[0] is not a)
            b = mul(_mkpoly({mm: c}), _open(a, tmp))
            body = add(body, b)
            k = int(sub(a.args[1], count).terms.get((), Fraction(0)))
            ta = single_atom(tmp)
            for j in range(k):
                extra = add(extra, subst(b, {ta: add(count, const(j))}))
            for j in range(k, 0):
                extra = sub(extra, subst(b, {ta: add(count, const(j))}))
            del rest[m]
        b2, e2 = _shift_body(body, count, tmp)
        extra = add(extra, e2)
        if b2.terms and len(b2.terms) < 400 and is_zero(b2, 6):
            b2 = ZERO
        new = add(_finish(rest) if rest else ZERO, add(sum_body(count, tmp, b2), extra))
        if new is not out:
            return new
    return out


def _shift_body(body, count, tmp):
    """(body', extra) with sum_{j<count} body = sum_{j<count} body' + extra"""
    ta = single_atom(tmp)
    extra = ZERO
    for _ in range(8):
        pw = None
        for m in body.terms:
            for a, e in m:
                if a.kind == "pw" and a.args[0] is tmp and ta in a.free:
                    pw = a
                    break
            if pw is not None:
                break
        if pw is None:
            for a in sorted(all_atoms(body), key=lambda a: a.uid):
                if a.kind == "pw" and a.args[0] is tmp:
                    pw = a
                    break
        if pw is None:
            break
        cuts = pw.args[1]
        c0, c1 = cuts[0], cuts[-1]
        v0 = cval(c0[0])
        v1 = cval(sub(c1[0], count))
        if v0 is not None and c0[1] == 0 and 0 < v0 <= 8:
            A_ = restrict(body, tmp, None, c0)
            B_ = restrict(body, tmp, c0, None)
            dd = sub(A_, B_)
            for j in range(int(v0)):
                extra = add(extra, ite(lt(const(j), count), subst(dd, {ta: const(j)}), ZERO))
            body = B_
        elif v1 is not None and c1[1] == 0 and -8 <= v1 < 0:
            A_ = restrict(body, tmp, None, c1)
            B_ = restrict(body, tmp, c1, None)
            dd = sub(B_, A_)
            for j in range(1, int(-v1) + 1):
                e = sub(count, const(j))
                extra = add(extra, ite(le(ZERO, e), subst(dd, {ta: e}), ZERO))
            body = A_
        else:
            break
    acc = ZERO
    for m, c in body.terms.items():
        p = _mkpoly({m: c})
        s = _offset(m, ta)
        if s and abs(s) <= 8:
            q = subst(p, {ta: sub(tmp, const(s))})
            if s > 0:
                for k in range(s):
                    extra = add(extra, sub(subst(p, {ta: add(count, const(k - s))}), subst(p, {ta: const(k - s)})))
            else:
                for k in range(s, 0):
                    extra = add(extra, sub(subst(p, {ta: const(k - s)}), subst(p, {ta: add(count, const(k - s))})))
            p = q
        acc = add(acc, p)
    return acc, extra


def _offset(m, ta):
    """least constant offset at which the index atom occurs in a monomial; None if absent"""
    offs = []

    def walk(x, depth):
        if isinstance(x, Poly):
            if ta not in x.free:
                return
            if is_index_expr(x):
                co = x.terms.get(((ta, 1),))
                if co == 1:
                    offs.append(int(x.terms.get((), 0)))
                    return
                offs.append(0)
                return
            for mm in x.terms:
                for a, e in mm:
                    walk(a, depth + 1)
        elif isinstance(x, Atom):
            if ta not in x.free:
                return
            if x is ta:
                offs.append(0)
                return
            for y in x.args:
                walk(y, depth + 1)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, depth + 1)

    for a, e in m:
        walk(a, 0)
    return min(offs) if offs else None


def _split_base(d):
    """a piecewise base to split on (outside binders), with its merged cuts"""
    found = {}
    stack = [d]
    seen = set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.terms:
                for a, e in m:
                    stack.append(a)
        elif isinstance(x, Atom):
            if x.kind == "pw":
                if not any(f.kind == "bv" for f in x.args[0].free):
                    found.setdefault(x.args[0], set()).update(x.args[1])
            if x.kind in BINDERS:
                # bases inside binders that do not use bound variables
                pass
            for y in x.args:
                if isinstance(y, (Poly, Atom, tuple)):
                    stack.append(y)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Poly, Atom, tuple)):
                    stack.append(y)
        elif isinstance(x, tuple):
            pass
    if not found:
        return None
    # prefer bases without nested pw
    base = min(found, key=lambda b: (not is_index_expr(b), b.size, b.uid))
    cuts = list(found[base])
    import functools

    try:
        cuts.sort(key=functools.cmp_to_key(_cmp_cut))
    except Undecided:
        return None
    return base, tuple(cuts)


# --------------------------------------------------------------- formatting
def fmt(p, depth=6):
    if not p.terms:
        return "0"
    if depth <= 0:
        return "…"
    out = []
    items = sorted(p.terms.items(), key=lambda mc: _order_key(mc[0]), reverse=True)
    for n, (m, c) in enumerate(items):
        if n >= 12:
            out.append("… (%d terms)" % len(items))
            break
        fs = []
        for a, e in m:
            s = fmt_atom(a, depth - 1)
            if e != 1:
                s = "%s**%s" % (s, e if isinstance(e, int) and e >= 0 else "(%s)" % e)
            fs.append(s)
        if not fs:
            out.append(fmt_num(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append(fmt_num(c) + "*" + "*".join(fs))
    return " + ".join(out).replace("+ -", "- ")


def fmt_num(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    if Fraction(repr(f)) == c:
        return repr(f)
    return "%s/%s" % (c.numerator, c.denominator)


def fmt_atom(a, depth=5):
    k = a.kind
    if k == "var":
        idx = a.args[2:]
        return a.args[0] + ("[%s]" % ", ".join(fmt(i, depth) if isinstance(i, Poly) else str(i) for i in idx) if idx else "")
    if k in ("idx", "dim"):
        return str(a.args[0])
    if k == "bv":
        return "_%d" % a.args[0]
    if k in ("inf", "nan", "pi"):
        return k
    if depth <= 0:
        return k + "(…)"
    if k in ("exp", "log"):
        return "%s(%s)" % (k, fmt(a.args[0], depth))
    if k == "sig":
        return "sigmoid(%s)" % fmt(a.args[0], depth)
    if k == "poly":
        return "(%s)" % fmt(a.args[0], depth)
    if k == "pw":
        base, cuts, pieces = a.args
        s = []
        for i, q in enumerate(pieces):
            if i < len(cuts):
                c, sd = cuts[i]
                s.append("%s%s: %s" % ("<" if sd == 0 else "<=", fmt(c, depth - 1), fmt(q, depth - 1)))
            else:
                s.append("else: %s" % fmt(q, depth - 1))
        return "case(%s; %s)" % (fmt(base, depth - 1), "; ".join(s))
    if k in BINDERS:
        return "%s[_%d<%s](%s)" % (k, a.args[0], fmt(a.args[1], depth - 1), fmt(a.args[2], depth - 1))
    if k == "pick":
        e = a.args[1]
        return "pick(%s; %s%s)" % (fmt(a.args[0], depth - 1), ", ".join(fmt(x, 2) for x in e[:4]), ", …" if len(e) > 4 else "")
    return "%s(%s)" % (a.args[0], ", ".join(_fv(x, depth - 1) for x in a.args[1:]))


def _fv(x, depth):
    if isinstance(x, Poly):
        return fmt(x, depth)
    if isinstance(x, Atom):
        return fmt_atom(x, depth)
    if isinstance(x, tuple):
        return "(%s)" % ", ".join(_fv(y, depth) for y in x[:6])
    return str(x)
