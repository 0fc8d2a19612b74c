"""Models of the numpy / jax.numpy functions (one definition for both namespaces)."""

import ast
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError, Sl
from .terms import Poly, Undecided, P
from .interp import Prim, Opq, NT, SymSeq, MapSeq, Phi, RangeV
from .prims import arr, binop, compare, term_key, arr_key, pybool, trunc, floordiv, mod


def ga(a, k, i, name, default=None):
    if len(a) > i:
        if name in k:
            raise PyError("TypeError", "multiple values for %s" % name)
        return a[i]
    return k.get(name, default)


def isnan(p):
    c = T.cval(p)
    if c is not None:
        return T.ZERO
    pw = T._find_pw(p)
    if pw is not None:
        return T._map_pw(pw, isnan, p)
    if has_kind(p, "nan"):
        return T.ONE
    if not has_data(p):
        return T.ZERO
    return T.app("isnan", p, isbool=True)


def isfinite(p):
    c = T.cval(p)
    if c is not None:
        return T.ONE
    pw = T._find_pw(p)
    if pw is not None:
        return T._map_pw(pw, isfinite, p)
    if has_kind(p, "nan") or has_kind(p, "inf"):
        return T.ZERO
    if not has_data(p):
        return T.ONE
    return T.app("isfinite", p, isbool=True)


def isinf(p):
    if has_kind(p, "inf"):
        return T.ONE
    if T.cval(p) is not None or has_kind(p, "nan") or not has_data(p):
        return T.ZERO
    return T.app("isinf", p, isbool=True)


FINITE = set()  # names of inputs declared finite by a check


def has_kind(p, kind):
    for m in p.terms:
        for a, e in m:
            if a.kind == kind:
                return True
    return False


def has_data(p):
    for f in p.free:
        if f.kind == "var" and f.args[0] not in FINITE:
            return True
    return any(a.kind == "app" for a in T.all_atoms(p))


def elementwise(f, dtype=None):
    def run(jax):
        def g(ip, a, k):
            xs = [arr(x) for x in a]
            r = A.emap(f, *xs, dtype=dtype)
            if isinstance(r, Arr):
                r.jax = r.jax or jax
                w = k.get("where")
                if w is not None and w is not True:
                    out = k.get("out")
                    base = arr(out) if out is not None else T.app("uninitialised")
                    r = A.emap(T.ite, arr(w), r, base)
                    if not jax:
                        r.jax = False
            out = k.get("out")
            if isinstance(out, Arr) and not jax:
                A.store(out, r if isinstance(r, Arr) else A.build(out.shape, lambda i: r))
                return out
            return r

        return g

    return run


def sign(p):
    return T.ite(T.lt0(p), T.const(-1), T.ite(T.lt0(T.neg(p)), T.ONE, T.ZERO))


def floor_(p):
    c = T.cval(p)
    if c is not None:
        return T.const(c.numerator // c.denominator)
    if p.isint:
        return p
    return T.app("floor", p, isint=True)


def ceil_(p):
    return T.neg(floor_(T.neg(p)))


def logaddexp(a, b):
    return T.log(T.add(T.exp(a), T.exp(b)))


def unary_fn(name):
    def f(p):
        return T.fn(name, p)

    return f


def tanh(p):
    # tanh x = 2 sig(2x) - 1
    return T.sub(T.scale(T.sigmoid(T.scale(p, 2)), 2), T.ONE)


def heaviside(a, b):
    return T.ite(T.lt0(a), T.ZERO, T.ite(T.lt0(T.neg(a)), T.ONE, b))


def nanmin2(a, b):
    """numpy minimum: NaN propagates"""
    na, nb = isn(a), isn(b)
    return T.ite(na, a, T.ite(nb, b, T.tmin(a, b)))


def nanmax2(a, b):
    na, nb = isn(a), isn(b)
    return T.ite(na, a, T.ite(nb, b, T.tmax(a, b)))


def isn(p):
    """NaN-ness as far as it is represented explicitly in the term"""
    pw = T._find_pw(p)
    if pw is not None:
        if any(has_nan_atom(p) for _ in (0,)):
            return T._map_pw(pw, isn, p)
        return T.ZERO
    return T.ONE if has_kind(p, "nan") else T.ZERO


_hn = {}


def has_nan_atom(p):
    r = _hn.get(p)
    if r is None:
        r = any(a.kind == "nan" for a in T.all_atoms(p))
        _hn[p] = r
    return r


def fn_ignore_nan(which):
    def f(a, b):
        na, nb = isnan(a), isnan(b)
        m = T.tmin(a, b) if which == "min" else T.tmax(a, b)
        return T.ite(na, b, T.ite(nb, a, m))

    return f


EW = {
    "add": T.add,
    "subtract": T.sub,
    "multiply": T.mul,
    "divide": T.div,
    "true_divide": T.div,
    "floor_divide": floordiv,
    "mod": mod,
    "remainder": mod,
    "power": T.power,
    "float_power": T.power,
    "negative": T.neg,
    "positive": lambda x: x,
    "reciprocal": lambda x: T.div(T.ONE, x),
    "exp": T.exp,
    "exp2": lambda x: T.exp(T.mul(x, T.log(T.const(2)))),
    "expm1": lambda x: T.sub(T.exp(x), T.ONE),
    "log": T.log,
    "log10": T.log10,
    "log2": lambda x: T.div(T.log(x), T.log(T.const(2))),
    "log1p": lambda x: T.log(T.add(T.ONE, x)),
    "sqrt": lambda x: T.pow_rat(x, Fraction(1, 2)),
    "cbrt": lambda x: T.pow_rat(x, Fraction(1, 3)),
    "square": lambda x: T.mul(x, x),
    "abs": T.tabs,
    "absolute": T.tabs,
    "fabs": T.tabs,
    "sign": sign,
    "minimum": nanmin2,
    "maximum": nanmax2,
    "fmin": fn_ignore_nan("min"),
    "fmax": fn_ignore_nan("max"),
    "tanh": tanh,
    "sin": unary_fn("sin"),
    "cos": unary_fn("cos"),
    "tan": unary_fn("tan"),
    "arctan": unary_fn("arctan"),
    "arctanh": lambda x: T.scale(T.log(T.div(T.add(T.ONE, x), T.sub(T.ONE, x))), Fraction(1, 2)),
    "arcsin": unary_fn("arcsin"),
    "arccos": unary_fn("arccos"),
    "sinh": lambda x: T.scale(T.sub(T.exp(x), T.exp(T.neg(x))), Fraction(1, 2)),
    "cosh": lambda x: T.scale(T.add(T.exp(x), T.exp(T.neg(x))), Fraction(1, 2)),
    "floor": floor_,
    "ceil": ceil_,
    "rint": lambda x: T.app("round", x, T.ZERO, isint=True),
    "trunc": trunc,
    "fix": trunc,
    "logaddexp": logaddexp,
    "heaviside": heaviside,
    "hypot": lambda a, b: T.pow_rat(T.add(T.mul(a, a), T.mul(b, b)), Fraction(1, 2)),
    "real": lambda x: x,
    "deg2rad": lambda x: T.mul(x, T.div(T.PI, T.const(180))),
}
EWB = {
    "isnan": isnan,
    "isfinite": isfinite,
    "isinf": isinf,
    "less": T.lt,
    "less_equal": T.le,
    "greater": lambda a, b: T.lt(b, a),
    "greater_equal": lambda a, b: T.le(b, a),
    "equal": T.eq,
    "not_equal": lambda a, b: T.b_not(T.eq(a, b)),
    "logical_and": lambda a, b: T.b_and(T.truth(a), T.truth(b)),
    "logical_or": lambda a, b: T.b_or(T.truth(a), T.truth(b)),
    "logical_not": lambda a: T.b_not(T.truth(a)),
    "logical_xor": lambda a, b: T.ite(T.truth(a), T.b_not(T.truth(b)), T.truth(b)),
    "isclose": lambda a, b: T.eq(a, b),
    "bitwise_and": lambda a, b: T.b_and(a, b),
    "bitwise_or": lambda a, b: T.b_or(a, b),
    "invert": lambda a: T.b_not(a),
    "bitwise_not": lambda a: T.b_not(a),
    "signbit": lambda a: T.lt0(a),
}


def shape_arg(ip, s):
    if isinstance(s, (tuple, list)):
        return tuple(A.norm_dim(x) for x in s)
    if isinstance(s, Arr):
        return tuple(A.norm_dim(x) for x in ip.iterate(s))
    return (A.norm_dim(s),)


def dt_of(d, default="f"):
    if d is None:
        return default
    if isinstance(d, str):
        n = d.strip("<>=|")
        return {"f": "f", "i": "i", "u": "i", "b": "b", "?": "b"}.get(n[:1], "f")
    if isinstance(d, Prim):
        n = d.name
        if n.startswith(("int", "uint")):
            return "i"
        if n.startswith("bool"):
            return "b"
        return "f"
    if isinstance(d, Opq) and d.name == "dtype":
        return d.args[0]
    return "f"


def _truthy(v):
    return v if isinstance(v, bool) else T.cval(P(v)) != 0


NARROW = [False]  # when set, conversions to types narrower than 64 bits stay visible in the term


def width(d):
    """name of the conversion when d is narrower than 64 bits, else None"""
    n = d.strip("<>=|") if isinstance(d, str) else d.name if isinstance(d, Prim) else ""
    full = {"f4": "f4", "f2": "f2", "e": "f2", "f": "f4", "i4": "i4", "i2": "i2", "i1": "i1", "u4": "u4", "u2": "u2", "u1": "u1",
            "single": "f4", "half": "f2", "float32": "f4", "float16": "f2", "int32": "i4", "int16": "i2", "int8": "i1",
            "uint32": "u4", "uint16": "u2", "uint8": "u1"}
    return full.get(n)


def narrow(x, w):
    if not NARROW[0] or w is None:
        return x
    if isinstance(x, Arr):
        return A.mapdata(x, lambda p: T.app("narrow_" + w, p), x.dtype)
    return T.app("narrow_" + w, P(x))


def cast(x, dt):
    """convert to dtype kind"""
    if dt == "i":
        f = lambda p: trunc(p)
    elif dt == "b":
        f = lambda p: T.truth(p)
    else:
        if isinstance(x, Arr):
            return Arr(x.shape, x.data, x.dtype if x.dtype == "key" else "f", x.jax)
        return P(x)
    if isinstance(x, Arr):
        return A.mapdata(x, f, dt)
    return f(P(x))


def mk_array(jax, copy=True):
    def f(ip, a, k):
        x = ga(a, k, 0, "a" if jax else "object")
        if x is None:
            x = k.get("object", k.get("x"))
        d = ga(a, k, 1, "dtype")
        if isinstance(x, Phi):
            x = ip.dephi(x)
        if isinstance(x, RangeV):
            x = arr(x)
        if isinstance(x, Opq):
            return x
        if isinstance(x, (list, tuple)) and x and all(isinstance(e, str) for e in x):
            return list(x)
        if isinstance(x, str) or x is None:
            return x
        if isinstance(x, dict):
            return x
        if isinstance(x, (list, tuple, NT)) and any(not (A.is_arraylike(e) or isinstance(e, (list, tuple, NT, SymSeq, MapSeq))) for e in (x.vals if isinstance(x, NT) else x)):
            return Opq("array", x)
        if "copy" in k or not copy:
            keep = not copy if k.get("copy", copy) is None else not _truthy(k.get("copy", copy))
            if isinstance(x, Arr) and keep and x.jax == jax and (d is None or dt_of(d) == x.dtype) and not (NARROW[0] and width(d)):
                return x
        r = A.to_array(x, jax)
        if isinstance(r, Arr):
            r = Arr(r.shape, r.data, r.dtype, jax)
        if d is not None:
            r = narrow(cast(r, dt_of(d)), width(d))
        elif jax and NARROW[0]:
            r = narrow(r, {"f": "f4", "i": "i4"}.get(A.dtype_of(r)))
        nd = k.get("ndmin")
        if nd:
            while len(A.shape_of(r)) < nd:
                r = A.reshape(r, (1,) + A.shape_of(r))
        return r

    return f


def require_(jax):
    base = mk_array(jax, False)

    def f(ip, a, k):
        # layout flags (contiguity, alignment, writeability) do not change the
        # values; an existing array that meets them is handed back unchanged
        ga(a, k, 2, "requirements")
        d = ga(a, k, 1, "dtype")
        x = a[0] if a else k.get("a")
        return base(ip, [x] + ([d] if d is not None else []), {})

    return f


def filled(jax, val):
    def f(ip, a, k):
        shp = shape_arg(ip, ga(a, k, 0, "shape"))
        v = val
        if val == "full":
            v = arr(ga(a, k, 1, "fill_value"))
            d = ga(a, k, 2, "dtype")
        else:
            d = ga(a, k, 1, "dtype")
        if val == "empty":
            v = T.app("uninitialised")
        dt = dt_of(d)
        if not shp:
            return P(v)
        return A.build(shp, lambda idx: A.bget(v, idx) if isinstance(v, Arr) else P(v), dt, jax)

    return f


def filled_like(jax, val):
    def f(ip, a, k):
        x = arr(a[0])
        shp = shape_arg(ip, k["shape"]) if k.get("shape") is not None else A.shape_of(x)
        v = val
        d = ga(a, k, 2 if val == "full" else 1, "dtype")
        if val == "full":
            v = arr(ga(a, k, 1, "fill_value"))
        if val == "empty":
            v = T.app("uninitialised")
        dt = dt_of(d) if d is not None else A.dtype_of(x)
        if not shp:
            return P(v)
        return A.build(shp, lambda idx: A.bget(v, idx) if isinstance(v, Arr) else P(v), dt, jax)

    return f


def arange(jax):
    def f(ip, a, k):
        a = list(a)
        st, sp, step = 0, None, 1
        if len(a) == 1:
            sp = a[0]
            if "stop" in k:
                st, sp = a[0], k["stop"]
        else:
            st, sp = a[0], a[1]
            if len(a) > 2 and not isinstance(a[2], Prim):
                step = a[2]
        step = k.get("step", step)
        d = P(T.sub(P(sp), P(st)))
        q = T.div(d, P(step))
        c = T.cval(q)
        if c is not None:
            n = max(0, -((-c.numerator) // c.denominator))
        elif q.isint:
            n = q
        else:
            n = T.app("ceil", q, isint=True)
        isint = all(A.dtype_of(x) == "i" for x in (st, sp, step))
        dt = k.get("dtype")
        return A.build((n,), lambda idx: T.add(P(st), T.mul(P(idx[0]), P(step))), dt_of(dt) if dt is not None else ("i" if isint else "f"), jax)

    return f


def linspace(jax, kind="lin"):
    def f(ip, a, k):
        lo, hi = arr(ga(a, k, 0, "start")), arr(ga(a, k, 1, "stop"))
        num = ga(a, k, 2, "num", 50)
        endpoint = ga(a, k, 3, "endpoint", True)
        n = A.norm_dim(num)
        den = T.sub(P(n), T.ONE) if endpoint else P(n)
        if kind == "geom":
            lo, hi = A.emap(T.log, lo), A.emap(T.log, hi)

        def g(idx):
            l, h = P(lo), P(hi)
            x = T.add(l, T.div(T.mul(T.sub(h, l), P(idx[0])), den)) if T.cval(den) != 0 else l
            if kind == "log":
                base = k.get("base", 10)
                return T.power(P(base), x)
            if kind == "geom":
                return T.exp(x)
            return x

        r = A.build((n,), g, "f", jax)
        if k.get("retstep"):
            return (r, T.div(T.sub(P(hi), P(lo)), den))
        return r

    return f


def eye(jax):
    def f(ip, a, k):
        n = A.norm_dim(a[0])
        m = ga(a, k, 1, "M")
        m = n if m is None else A.norm_dim(m)
        return A.build((n, m), lambda idx: T.eq(P(idx[0]), P(idx[1])), "f", jax)

    return f


def diag(jax):
    def f(ip, a, k):
        x = arr(a[0])
        off = ga(a, k, 1, "k", 0)
        if off != 0:
            raise Undecided("diag offset")
        if x.ndim == 1:
            n = x.shape[0]
            return A.build((n, n), lambda idx: T.ite(T.eq(P(idx[0]), P(idx[1])), x.get([idx[0]]), T.ZERO), x.dtype, jax)
        n = x.shape[0]
        return A.build((n,), lambda idx: x.get([idx[0], idx[0]]), x.dtype, jax)

    return f


def tri(jax, lower):
    def f(ip, a, k):
        x = arr(a[0])
        off = ga(a, k, 1, "k", 0)

        def g(idx):
            i, j = P(idx[-2]), P(idx[-1])
            c = T.le(j, T.add(i, P(off))) if lower else T.le(T.add(i, P(off)), j)
            return T.ite(c, x.get(idx), T.ZERO)

        return A.build(x.shape, g, x.dtype, jax)

    return f


def tri_indices(jax, lower):
    def f(ip, a, k):
        n = A.norm_dim(a[0])
        off = ga(a, k, 1, "k", 0)
        if not isinstance(n, int):
            raise Undecided("symbolic triangle indices")
        prs = [(i, j) for i in range(n) for j in range(n) if (j <= i + off if lower else j >= i + off)]
        return (A.stack([T.const(i) for i, j in prs], jax, "i"), A.stack([T.const(j) for i, j in prs], jax, "i"))

    return f


def matmul(ip, a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise PyError("ValueError", "matmul of scalars")
    return dot_general(a, b)


def dot_general(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return A.emap(T.mul, a, b)
    ka = a.ndim - 1
    kb = b.ndim - 2 if b.ndim > 1 else 0
    n = a.shape[ka]
    if not A.same_dim(n, b.shape[kb]):
        raise PyError("ValueError", "dot: shapes not aligned")
    if a.ndim > 2 or b.ndim > 2:
        # batched matmul
        if a.ndim > 2 and b.ndim > 2:
            bs = A.bshape(a.shape[:-2], b.shape[:-2])
            shp = bs + (a.shape[-2], b.shape[-1])

            def f(idx):
                bi = idx[: len(bs)]
                i, j = idx[-2], idx[-1]

                def g(q):
                    ia = [0 if s == 1 else x for x, s in zip(bi[len(bs) - (a.ndim - 2) :], a.shape[:-2])]
                    ib = [0 if s == 1 else x for x, s in zip(bi[len(bs) - (b.ndim - 2) :], b.shape[:-2])]
                    return T.mul(a.get(ia + [i, q]), b.get(ib + [q, j]))

                return T.tsum(n, g)

            return A.build(shp, f, "f", a.jax or b.jax)
    sa = a.shape[:ka]
    sb = b.shape[:kb] + b.shape[kb + 1 :]

    def f(idx):
        ia = list(idx[: len(sa)])
        ib = list(idx[len(sa) :])

        def g(q):
            return T.mul(a.get(ia + [q]), b.get(ib[:kb] + [q] + ib[kb:]))

        return T.tsum(n, g)

    return A.scalar_result(sa + sb, f, "f", a.jax or b.jax)


def np_dot(jax):
    def f(ip, a, k):
        x, y = arr(a[0]), arr(a[1])
        if not isinstance(x, Arr) or not isinstance(y, Arr):
            return A.emap(T.mul, x, y)
        return dot_general(x, y)

    return f


def outer(jax):
    def f(ip, a, k):
        x, y = arr(a[0]), arr(a[1])
        x = ravel(x)
        y = ravel(y)
        return A.build((x.shape[0], y.shape[0]), lambda idx: T.mul(x.get([idx[0]]), y.get([idx[1]])), "f", jax)

    return f


def ravel(x):
    if not isinstance(x, Arr):
        return A.stack([P(x)])
    return A.reshape(x, (A.size_of(x),))


def einsum(jax):
    def f(ip, a, k):
        spec = a[0].replace(" ", "")
        ops = [arr(x) for x in a[1:]]
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            letters = sorted(set(spec.replace(",", "")))
            out = "".join(c for c in letters if spec.count(c) == 1)
        ins = ins.split(",")
        if "..." in spec:
            raise Undecided("einsum ellipsis")
        dims = {}
        for s, x in zip(ins, ops):
            if len(s) != len(A.shape_of(x)):
                raise PyError("ValueError", "einsum: operand rank mismatch")
            for c, n in zip(s, A.shape_of(x)):
                if c in dims and not A.same_dim(dims[c], n):
                    if dims[c] == 1:
                        dims[c] = n
                    elif n != 1:
                        raise PyError("ValueError", "einsum: size mismatch for %s" % c)
                dims.setdefault(c, n)
        red = [c for c in dims if c not in out]

        def g(idx):
            env = dict(zip(out, idx))

            def rec(j):
                if j == len(red):
                    r = T.ONE
                    for s, x in zip(ins, ops):
                        r = T.mul(r, A.sget(x, [0 if n == 1 else env[c] for c, n in zip(s, A.shape_of(x))]))
                    return r

                def h(q):
                    env[red[j]] = q
                    return rec(j + 1)

                return T.tsum(dims[red[j]], h)

            return rec(0)

        return A.scalar_result(tuple(dims[c] for c in out), g, "f", jax)

    return f


def red(kind):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            ax = ga(a, k, 1, "axis")
            if isinstance(ax, list):
                ax = tuple(ax)
            kd = k.get("keepdims", False)
            w = k.get("where")
            if w is not None and w is not True:
                neutral = {"sum": T.ZERO, "prod": T.ONE, "redmax": T.neg(T.INF), "redmin": T.INF, "redany": T.ZERO}[kind]
                x = A.emap(lambda c, v: T.ite(c, v, neutral), arr(w), x)
            r = nanaware_reduce(x, ax, kind, kd)
            if k.get("initial") is not None:
                i0 = P(k["initial"])
                op = {"sum": T.add, "prod": T.mul, "redmax": T.tmax, "redmin": T.tmin}[kind]
                r = A.emap(lambda v: op(v, i0), r)
            return r

        return f

    return mk


def nanaware_reduce(x, ax, kind, kd=False):
    if kind in ("redmin", "redmax") and isinstance(x, Arr) and any(has_nan_atom(v) for v in x.data.values()):
        if x.ndim == 1 and A.unrolled(x.shape[0]):
            op = nanmin2 if kind == "redmin" else nanmax2
            r = x.get([0])
            for j in range(1, x.shape[0]):
                r = op(r, x.get([j]))
            return r
    return A.reduce(x, ax, kind, kd)


def mean_of(x, ax, kd=False, w=None):
    if not isinstance(x, Arr):
        return P(x)
    if isinstance(ax, list):
        ax = tuple(ax)
    if isinstance(ax, int) and ax < 0:
        ax += x.ndim
    if isinstance(ax, tuple):
        ax = tuple(z + x.ndim if z < 0 else z for z in ax)
    if w is not None:
        m = A.emap(lambda c: T.truth(c), arr(w), dtype="b")
        num = A.reduce(A.emap(lambda c, v: T.ite(c, v, T.ZERO), m, x), ax, "sum", kd)
        den = A.reduce(A.emap(lambda c, v: c, m, x, dtype="b"), ax, "sum", kd)
        return A.emap(T.div, num, den, dtype="f")
    s = A.reduce(x, ax, "sum", kd)
    n = A.size_of(x, ax)
    return A.emap(lambda v: T.div(v, P(n)), s, dtype="f")


def np_mean(jax):
    def f(ip, a, k):
        return mean_of(arr(a[0]), ga(a, k, 1, "axis"), k.get("keepdims", False), k.get("where"))

    return f


def np_var(std):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            ax = ga(a, k, 1, "axis")
            dd = k.get("ddof", 0)
            m = mean_of(x, ax, True)
            d = A.emap(lambda p, q: T.pow_rat(T.sub(p, q), 2), x, m)
            s = A.reduce(d, ax, "sum", k.get("keepdims", False))
            n = T.sub(P(A.size_of(x, ax)), P(dd))
            r = A.emap(lambda v: T.div(v, n), s, dtype="f")
            if std:
                r = A.emap(lambda v: T.pow_rat(v, Fraction(1, 2)), r)
            return r

        return f

    return mk


def np_average(jax):
    def f(ip, a, k):
        x = arr(a[0])
        ax = ga(a, k, 1, "axis")
        w = ga(a, k, 2, "weights")
        if w is None:
            return mean_of(x, ax)
        w = arr(w)
        if A.shape_of(w) != A.shape_of(x):
            if ax is None or w.ndim != 1:
                raise PyError("TypeError", "average: weights shape")
            axx = A.norm_axis(ax, x.ndim)
            w = A.reshape(w, tuple(s if j == axx else 1 for j, s in enumerate(x.shape)))
        num = A.reduce(A.emap(T.mul, x, w), ax, "sum")
        den = A.reduce(A.emap(lambda p, q: q, x, w), ax, "sum")
        return A.emap(T.div, num, den)

    return f


def np_all(jax):
    def f(ip, a, k):
        x = A.emap(lambda c: T.b_not(T.truth(c)), arr(a[0]), dtype="b")
        r = A.reduce(x, ga(a, k, 1, "axis"), "redany", k.get("keepdims", False)) if isinstance(x, Arr) else P(x)
        return A.emap(T.b_not, r, dtype="b")

    return f


def np_any(jax):
    def f(ip, a, k):
        x = A.emap(lambda c: T.truth(c), arr(a[0]), dtype="b")
        return A.reduce(x, ga(a, k, 1, "axis"), "redany", k.get("keepdims", False)) if isinstance(x, Arr) else P(x)

    return f


def cum(kind):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            ax = ga(a, k, 1, "axis")
            return cum_axis(x, ax, kind, jax)

        return f

    return mk


def cum_axis(x, ax, kind, jax):
    if not isinstance(x, Arr):
        x = A.stack([P(x)])
    if ax is None:
        if x.ndim > 1:
            x = ravel(x)
        ax = 0
    ax = A.norm_axis(ax, x.ndim)

    def g(idx):
        i = idx[ax]
        cnt = T.add(P(i), T.ONE)

        def h(j):
            c = T.cval(j)
            return x.get(idx[:ax] + [int(c) if c is not None else j] + idx[ax + 1 :])

        if kind == "sum":
            return T.tsum(cnt, h)
        return T.treduce(kind, cnt, h)

    return A.build(x.shape, g, x.dtype if x.dtype != "b" else "i", jax)


def np_diff(jax):
    def f(ip, a, k):
        x = arr(a[0])
        n = ga(a, k, 1, "n", 1)
        ax = ga(a, k, 2, "axis", -1)
        if k.get("prepend") is not None or k.get("append") is not None:
            parts = []
            axx = A.norm_axis(ax, x.ndim)
            for key in ("prepend", None, "append"):
                if key is None:
                    parts.append(x)
                elif k.get(key) is not None:
                    v = arr(k[key])
                    if not isinstance(v, Arr):
                        v = A.build(tuple(1 if j == axx else s for j, s in enumerate(x.shape)), lambda idx: v)
                    parts.append(v)
            x = A.concat(parts, axx, jax)
        for _ in range(n):
            x = diff1(x, ax)
        return x

    return f


def diff1(x, ax=-1):
    ax = A.norm_axis(ax, x.ndim)
    m = A.norm_dim(T.sub(P(x.shape[ax]), T.ONE))
    shp = x.shape[:ax] + (m,) + x.shape[ax + 1 :]

    def g(idx):
        i = idx[ax]
        i1 = i + 1 if isinstance(i, int) else T.add(i, T.ONE)
        return T.sub(x.get(idx[:ax] + [i1] + idx[ax + 1 :]), x.get(idx[:ax] + [i] + idx[ax + 1 :]))

    return A.build(shp, g, x.dtype, x.jax)


def np_gradient(jax):
    def f(ip, a, k):
        x = arr(a[0])
        if len(a) > 2 or k or x.ndim != 1:
            raise Undecided("gradient")
        t = arr(a[1]) if len(a) > 1 else T.ONE
        n = x.shape[0]
        X = lambda i: x.get([A.norm_index(i, n)])
        if not isinstance(t, Arr):
            mid = lambda i: T.div(T.sub(X(T.add(P(i), T.ONE)), X(T.sub(P(i), T.ONE))), T.scale(P(t), 2))
            h0 = h1 = P(t)
        else:
            TT = lambda i: t.get([A.norm_index(i, n)])

            def mid(i):
                i = P(i)
                hd = T.sub(TT(i), TT(T.sub(i, T.ONE)))
                hs = T.sub(TT(T.add(i, T.ONE)), TT(i))
                num = T.add(T.add(T.mul(T.mul(hd, hd), X(T.add(i, T.ONE))), T.mul(T.sub(T.mul(hs, hs), T.mul(hd, hd)), X(i))), T.neg(T.mul(T.mul(hs, hs), X(T.sub(i, T.ONE)))))
                return T.div(num, T.mul(T.mul(hs, hd), T.add(hs, hd)))

            h0 = T.sub(TT(1), TT(0))
            h1 = T.sub(TT(-1), TT(-2))
        first = T.div(T.sub(X(1), X(0)), h0)
        last = T.div(T.sub(X(-1), X(-2)), h1)

        def g(idx):
            i = P(idx[0])
            return T.ite(T.eq(i, T.ZERO), first, T.ite(T.eq(i, T.sub(P(n), T.ONE)), last, mid(i)))

        return A.build((n,), g, "f", jax)

    return f


def np_trapz(jax):
    def f(ip, a, k):
        y = arr(a[0])
        x = ga(a, k, 1, "x")
        dx = ga(a, k, 2, "dx", 1)
        ax = ga(a, k, 3, "axis", -1)
        n = y.ndim
        axx = A.norm_axis(ax, n)
        lo = A.getitem(y, tuple([Sl(None, None, None)] * axx + [Sl(None, -1, None)]))[0]
        hi = A.getitem(y, tuple([Sl(None, None, None)] * axx + [Sl(1, None, None)]))[0]
        if x is not None:
            x = arr(x)
            d = diff1(x, -1 if x.ndim == 1 else axx)
            if x.ndim == 1 and n > 1:
                d = A.reshape(d, tuple(d.shape[0] if j == axx else 1 for j in range(n)))
        else:
            d = P(dx)
        z = A.emap(lambda p, q, r: T.scale(T.mul(T.add(p, q), r), Fraction(1, 2)), lo, hi, d)
        return A.reduce(z, axx, "sum")

    return f


def seq_arrays(ip, x):
    if isinstance(x, Arr):
        return [A.getitem(x, j)[0] for j in range(x.shape[0])] if isinstance(x.shape[0], int) else x
    if isinstance(x, (SymSeq, MapSeq)) and not isinstance(x.n, int):
        return A.to_array(x, True)
    return [arr(v) for v in ip.iterate(x)]


def concatenate(jax):
    def f(ip, a, k):
        xs = ga(a, k, 0, "arrays" if jax else "seq")
        ax = ga(a, k, 1, "axis", 0)
        xs = seq_arrays(ip, xs)
        if isinstance(xs, Arr):
            # symbolic number of blocks
            return ravel(xs)
        if ax is None:
            xs = [ravel(x) for x in xs]
            ax = 0
        return A.concat(xs, ax, jax)

    return f


def np_stack(jax):
    def f(ip, a, k):
        xs = seq_arrays(ip, a[0])
        ax = ga(a, k, 1, "axis", 0)
        if isinstance(xs, Arr):
            r = xs
        else:
            sh = [A.shape_of(x) for x in xs]
            if any(s != sh[0] for s in sh):
                raise PyError("ValueError", "all input arrays must have the same shape")
            r = A.stack(xs, jax)
        ax = A.norm_axis(ax, r.ndim)
        if ax:
            perm = list(range(1, ax + 1)) + [0] + list(range(ax + 1, r.ndim))
            r = A.transpose(r, perm)
        return r

    return f


def at_least(n):
    def mk(jax):
        def f(ip, a, k):
            out = []
            for x in a:
                y = arr(x)
                s = A.shape_of(y)
                if len(s) >= n:
                    out.append(y if isinstance(x, Arr) else y)
                    continue
                if n == 1:
                    y = A.reshape(y if isinstance(y, Arr) else P(y), (1,))
                elif n == 2:
                    y = A.reshape(y, (1, s[0] if s else 1))
                else:
                    raise Undecided("atleast_3d")
                y.jax = jax
                out.append(y)
            return out[0] if len(out) == 1 else out

        return f

    return mk


def hstack(jax):
    def f(ip, a, k):
        xs = [x if isinstance(x, Arr) and x.ndim else A.reshape(arr(x), (1,)) for x in seq_arrays(ip, a[0])]
        return A.concat(xs, 0 if xs[0].ndim == 1 else 1, jax)

    return f


def vstack(jax):
    def f(ip, a, k):
        xs = seq_arrays(ip, a[0])
        if isinstance(xs, Arr):
            if xs.ndim == 2:
                return xs
            raise Undecided("vstack of a symbolic number of blocks")
        xs = [at_least(2)(jax)(ip, [x], {}) for x in xs]
        return A.concat(xs, 0, jax)

    return f


def column_stack(jax):
    def f(ip, a, k):
        xs = [A.reshape(x, (x.shape[0], 1)) if x.ndim == 1 else x for x in seq_arrays(ip, a[0])]
        return A.concat(xs, 1, jax)

    return f


def cat_index(o, i):
    """np.r_[a, b] and np.c_[a, b] over arrays and scalars"""
    xs = [arr(x) for x in (i if isinstance(i, tuple) else (i,))]
    if o.name == "np.c_":
        xs = [A.reshape(x, (x.shape[0], 1)) if x.ndim == 1 else x for x in xs]
        if any(x.ndim != 2 for x in xs):
            raise Undecided("np.c_ of scalars")
        return A.concat(xs, 1, o.args[0])
    xs = [x if isinstance(x, Arr) and x.ndim else A.reshape(A.to_array([x], o.args[0]), (1,)) for x in xs]
    return A.concat(xs, 0, o.args[0])


def fromiter(jax):
    def f(ip, a, k):
        it = ga(a, k, 0, "iter")
        return A.to_array(it if not isinstance(it, (tuple, set)) else list(it), jax)

    return f


def np_delete(jax):
    def f(ip, a, k):
        x, i, ax = arr(a[0]), A.intval(ga(a, k, 1, "obj")), ga(a, k, 2, "axis", None)
        if x.ndim != 1 or i is None or ax not in (None, 0, -1):
            raise Undecided("np.delete")
        s = lambda lo, hi: A.Sl(lo, hi, None)
        if i == -1:
            return A.getitem(x, (s(None, -1),))[0]
        if i < 0:
            raise Undecided("np.delete of a negative index")
        return A.concat([A.getitem(x, (s(None, i),))[0], A.getitem(x, (s(i + 1, None),))[0]], 0, jax)

    return f


def np_where(jax):
    def f(ip, a, k):
        c = arr(a[0])
        if len(a) == 1:
            return nonzero(c, jax)
        x, y = arr(a[1]), arr(a[2])
        r = A.emap(T.ite, c, x, y, dtype="f" if "f" in (A.dtype_of(x), A.dtype_of(y)) else A.dtype_of(x))
        if isinstance(r, Arr):
            r.jax = jax
        return r

    return f


def nonzero(c, jax):
    if not isinstance(c, Arr) or c.ndim != 1:
        raise Undecided("nonzero of a %d-d array" % len(A.shape_of(c)))
    n = c.shape[0]
    b = A.mapdata(c, T.truth, "b")
    ident = A.build((n,), lambda idx: P(idx[0]), "i", jax)
    return (A.mask_get(ident, [b]),)


def np_select(jax):
    def f(ip, a, k):
        conds = [arr(c) for c in ip.iterate(a[0])]
        ch = [arr(c) for c in ip.iterate(a[1])]
        r = arr(ga(a, k, 2, "default", 0))
        for c, v in reversed(list(zip(conds, ch))):
            r = A.emap(T.ite, c, v, r)
        return r

    return f


def np_clip(jax):
    def f(ip, a, k):
        x = arr(ga(a, k, 0, "arr" if jax else "a") if "x" not in k else k["x"])
        lo = ga(a, k, 1, "min")
        hi = ga(a, k, 2, "max")
        lo = k.get("a_min", lo)
        hi = k.get("a_max", hi)
        return clip(x, lo, hi)

    return f


def clip(x, lo, hi):
    if lo is not None:
        x = A.emap(nanmax2, arr(lo), x)
    if hi is not None:
        x = A.emap(nanmin2, x, arr(hi))
    return x


def np_take(jax):
    def f(ip, a, k):
        x, ix = arr(a[0]), ga(a, k, 1, "indices")
        ax = ga(a, k, 2, "axis")
        if ax is None:
            x = ravel(x)
            ax = 0
        ax = A.norm_axis(ax, x.ndim)
        ix = arr(ix)
        return A.getitem(x, tuple([Sl(None, None, None)] * ax + [ix]))[0]

    return f


def argext(which, nan=False):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            ax = ga(a, k, 1, "axis")
            if not isinstance(x, Arr):
                return 0
            if x.ndim > 1 and ax is None:
                x = ravel(x)
                ax = 0
            ax = A.norm_axis(ax or 0, x.ndim)
            n = x.shape[ax]
            shp = x.shape[:ax] + x.shape[ax + 1 :]

            def g(idx):
                if A.unrolled(n):
                    best = T.ZERO
                    bv = x.get(idx[:ax] + [0] + idx[ax:])
                    if x.dtype == "b" and which == "max":
                        r = T.ZERO
                        for j in range(n - 1, -1, -1):
                            r = T.ite(x.get(idx[:ax] + [j] + idx[ax:]), T.const(j), r)
                        return r
                    for j in range(1, n):
                        v = x.get(idx[:ax] + [j] + idx[ax:])
                        better = T.lt(v, bv) if which == "min" else T.lt(bv, v)
                        nv, nb = isnan(v), isnan(bv)
                        if not nan:
                            nv, nb = isn(v), isn(bv)
                        if nan:
                            c = T.b_and(T.b_not(nv), T.b_or(nb, better))
                        else:
                            # first NaN wins
                            c = T.b_and(T.b_not(nb), T.b_or(nv, better))
                        best = T.ite(c, T.const(j), best)
                        bv = T.ite(c, v, bv)
                    return best
                tmp = T.fresh_idx(P(n), "m")
                lam = T.close("lam", P(n), tmp, x.get(idx[:ax] + [tmp] + idx[ax:]))
                return T.app(("nan" if nan else "") + "arg" + which, lam, P(n), isint=True)

            r = A.scalar_result(shp, g, "i", jax)
            if isinstance(r, Poly):
                c = A.intval(r)
                return c if c is not None else r
            return r

        return f

    return mk


def nanred(which):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            if not isinstance(x, Arr):
                return P(x)
            if x.ndim == 1 and A.unrolled(x.shape[0]):
                op = fn_ignore_nan(which)
                r = x.get([0])
                for j in range(1, x.shape[0]):
                    r = op(r, x.get([j]))
                return r
            big = T.INF if which == "min" else T.neg(T.INF)
            y = A.mapdata(x, lambda p: T.ite(isnan(p), big, p))
            return A.reduce(y, ga(a, k, 1, "axis"), "red" + which)

        return f

    return mk


def nansum(jax):
    def f(ip, a, k):
        x = arr(a[0])
        y = A.emap(lambda p: T.ite(isnan(p), T.ZERO, p), x)
        return A.reduce(y, ga(a, k, 1, "axis"), "sum")

    return f


def np_interp(jax):
    def f(ip, a, k):
        x, xp, fp = arr(ga(a, k, 0, "x")), arr(ga(a, k, 1, "xp")), arr(ga(a, k, 2, "fp"))
        l, r = ga(a, k, 3, "left"), ga(a, k, 4, "right")
        lx, lf = arr_key(xp), arr_key(fp)
        extra = () if l is None and r is None else (term_key(l), term_key(r))
        return A.emap(lambda p: T.app("interp", p, lx, lf, *extra), x, dtype="f")

    return f


def np_searchsorted(jax):
    def f(ip, a, k):
        x, v = arr(a[0]), arr(ga(a, k, 1, "v"))
        side = ga(a, k, 2, "side", "left")
        lx = arr_key(x)
        return A.emap(lambda p: T.app("searchsorted", lx, p, side, isint=True), v, dtype="i")

    return f


def np_digitize(jax):
    def f(ip, a, k):
        v, x = arr(a[0]), arr(a[1])
        right = ga(a, k, 2, "right", False)
        lx = arr_key(x)
        return A.emap(lambda p: T.app("searchsorted", lx, p, "left" if right else "right", isint=True), v, dtype="i")

    return f


def np_broadcast_to(jax):
    def f(ip, a, k):
        x = arr(a[0])
        shp = shape_arg(ip, ga(a, k, 1, "shape"))
        A.bshape(A.shape_of(x), shp)
        return A.build(shp, lambda idx: A.bget(x, idx), A.dtype_of(x), jax)

    return f


def np_tile(jax):
    def f(ip, a, k):
        x = arr(a[0])
        reps = shape_arg(ip, ga(a, k, 1, "reps"))
        s = A.shape_of(x)
        n = max(len(s), len(reps))
        s = (1,) * (n - len(s)) + tuple(s)
        reps = (1,) * (n - len(reps)) + tuple(reps)
        x = A.reshape(x, s) if n else x
        if all(isinstance(z, int) and z == 1 for z, r in zip(s, reps) if not (isinstance(r, int) and r == 1)):
            shp = tuple(r if isinstance(z, int) and z == 1 else z for z, r in zip(s, reps))
            return A.build(shp, lambda idx: A.bget(x, idx), A.dtype_of(x), jax)
        shp = tuple(A.dmul(z, r) for z, r in zip(s, reps))

        def g(idx):
            src = []
            for i, z, r in zip(idx, s, reps):
                if isinstance(r, int) and r == 1:
                    src.append(i)
                else:
                    q = A.divmod_index(P(i), z)[1]
                    c = T.cval(q)
                    src.append(int(c) if c is not None else q)
            return x.get(src)

        return A.build(shp, g, A.dtype_of(x), jax)

    return f


def np_repeat(jax):
    def f(ip, a, k):
        x = arr(a[0])
        r = ga(a, k, 1, "repeats")
        ax = ga(a, k, 2, "axis")
        if isinstance(r, Arr):
            raise Undecided("repeat with counts")
        if ax is None:
            x = ravel(x)
            ax = 0
        ax = A.norm_axis(ax, x.ndim)
        r = A.norm_dim(r)
        n = x.shape[ax]
        shp = x.shape[:ax] + (A.dmul(n, r),) + x.shape[ax + 1 :]

        def g(idx):
            if n == 1:
                q = 0
            else:
                q = A.divmod_index(P(idx[ax]), r)[0]
                c = T.cval(q)
                q = int(c) if c is not None else q
            return x.get(idx[:ax] + [q] + idx[ax + 1 :])

        return A.build(shp, g, x.dtype, jax)

    return f


def np_flip(jax):
    def f(ip, a, k):
        x = arr(a[0])
        ax = ga(a, k, 1, "axis")
        axs = range(x.ndim) if ax is None else [ax]
        for z in axs:
            z = A.norm_axis(z, x.ndim)
            x = A.getitem(x, tuple([Sl(None, None, None)] * z + [Sl(None, None, -1)]))[0]
        return x

    return f


def np_roll(jax):
    def f(ip, a, k):
        x = arr(a[0])
        sh = ga(a, k, 1, "shift")
        ax = ga(a, k, 2, "axis")
        if x.ndim == 1:
            ax = 0
        if ax is None:
            raise Undecided("roll of a flattened array")
        ax = A.norm_axis(ax, x.ndim)
        n = x.shape[ax]
        s = A.intval(sh)
        if s is None:
            raise Undecided("symbolic roll")
        # out[i] = x[(i - s) mod n]
        if s == 0:
            return x
        if s > 0:
            cut = -s
        else:
            cut = -s
        pre = tuple([Sl(None, None, None)] * ax)
        return A.concat([A.getitem(x, pre + (Sl(cut, None, None),))[0], A.getitem(x, pre + (Sl(None, cut, None),))[0]], ax, jax)

    return f


def np_expand(jax):
    def f(ip, a, k):
        x = arr(a[0])
        ax = ga(a, k, 1, "axis")
        s = list(A.shape_of(x))
        ax = ax + len(s) + 1 if ax < 0 else ax
        s.insert(ax, 1)
        return A.reshape(x, tuple(s))

    return f


def np_squeeze(jax):
    def f(ip, a, k):
        x = arr(a[0])
        ax = ga(a, k, 1, "axis")
        s = A.shape_of(x)
        if ax is None:
            out = tuple(z for z in s if not (isinstance(z, int) and z == 1))
        else:
            ax = A.norm_axis(ax, len(s))
            out = s[:ax] + s[ax + 1 :]
        return A.reshape(x, out)

    return f


def np_transpose(jax):
    def f(ip, a, k):
        x = arr(a[0])
        ax = ga(a, k, 1, "axes")
        if not isinstance(x, Arr):
            return x
        return A.transpose(x, None if ax is None else [A.intval(z) for z in ip.iterate(ax)])

    return f


def np_swapaxes(jax, move=False):
    def f(ip, a, k):
        x = arr(a[0])
        i, j = A.norm_axis(a[1], x.ndim), A.norm_axis(a[2], x.ndim)
        p = list(range(x.ndim))
        if move:
            p.remove(i)
            p.insert(j, i)
        else:
            p[i], p[j] = p[j], p[i]
        return A.transpose(x, p)

    return f


def np_reshape(jax):
    def f(ip, a, k):
        s = ga(a, k, 1, "shape", k.get("newshape"))
        r = A.reshape(arr(a[0]), shape_arg(ip, s))
        return r

    return f


def np_meshgrid(jax):
    def f(ip, a, k):
        xs = [arr(x) for x in a]
        ij = k.get("indexing", "xy") == "ij"
        n = len(xs)
        order = list(range(n))
        if not ij and n >= 2:
            order[0], order[1] = 1, 0
        shp = tuple(xs[j].shape[0] for j in order)
        out = []
        for j in range(n):
            pos = order.index(j)
            out.append(A.build(shp, (lambda x, pos: lambda idx: x.get([idx[pos]]))(xs[j], pos), xs[j].dtype, jax))
        return out

    return f


def np_append(jax):
    def f(ip, a, k):
        x, y = arr(a[0]), arr(a[1])
        ax = ga(a, k, 2, "axis")
        if ax is None:
            x, y, ax = ravel(x), ravel(y), 0
        return A.concat([x, y], ax, jax)

    return f


def np_insert(jax):
    def f(ip, a, k):
        x, i, v = arr(a[0]), A.intval(a[1]), arr(a[2])
        if i is None or x.ndim != 1 or isinstance(v, Arr):
            raise Undecided("insert")
        lo = A.getitem(x, Sl(None, i, None))[0]
        hi = A.getitem(x, Sl(i, None, None))[0]
        return A.concat([lo, A.stack([P(v)]), hi], 0, jax)

    return f


def np_pad(jax):
    def f(ip, a, k):
        x, pw = arr(a[0]), ga(a, k, 1, "pad_width")
        if x.ndim != 1 or ga(a, k, 2, "mode", "constant") != "constant":
            raise Undecided("pad")
        v = k.get("constant_values", 0)
        w = ip.iterate(pw) if not A.is_num(pw) else [pw, pw]
        if len(w) == 1:
            w = ip.iterate(w[0])
        if isinstance(w[0], tuple):
            w = list(w[0])
        vs = ip.iterate(v) if not A.is_num(v) else [v, v]
        parts = []
        if w[0] != 0:
            parts.append(A.build((w[0],), lambda idx: P(vs[0])))
        parts.append(x)
        if w[1] != 0:
            parts.append(A.build((w[1],), lambda idx: P(vs[1])))
        return A.concat(parts, 0, jax)

    return f


def np_allclose(jax):
    def f(ip, a, k):
        x = A.emap(lambda p, q: T.b_not(T.eq(p, q)), arr(a[0]), arr(a[1]), dtype="b")
        r = A.reduce(x, None, "redany") if isinstance(x, Arr) else P(x)
        return pybool(T.b_not(r))

    return f


def np_shape(jax):
    return lambda ip, a, k: A.shape_of(arr(a[0]))


def np_fill_diagonal(jax):
    def f(ip, a, k):
        x = a[0]
        v = P(arr(a[1]))
        new = A.build(x.shape, lambda idx: T.ite(T.eq(P(idx[0]), P(idx[1])), v, x.get(idx)), x.dtype, False)
        A.store(x, new)

    return f


def np_sort(jax):
    def f(ip, a, k):
        x = arr(a[0])
        if x.ndim != 1:
            raise Undecided("sort of a 2-d array")
        lam = A.lam1(x)
        n = x.shape[0]
        return A.build((n,), lambda idx: T.app("sorted", lam, P(n), P(idx[0])), x.dtype, jax)

    return f


def np_argsort(jax):
    def f(ip, a, k):
        x = arr(a[0])
        if x.ndim != 1:
            raise Undecided("argsort of a 2-d array")
        lam = A.lam1(x)
        n = x.shape[0]
        return A.build((n,), lambda idx: T.app("argsort", lam, P(n), P(idx[0]), isint=True), "i", jax)

    return f


def np_unique(jax):
    def f(ip, a, k):
        x = arr(a[0])
        lam = A.lam1(x)
        n = x.shape[0]
        cnt = T.app("nunique", lam, P(n), isint=True)
        u = A.build((cnt,), lambda idx: T.app("unique", lam, P(n), P(idx[0])), x.dtype, jax)
        outs = [u]
        if k.get("return_index"):
            outs.append(A.build((cnt,), lambda idx: T.app("uindex", lam, P(n), P(idx[0]), isint=True), "i", jax))
        if k.get("return_inverse"):
            outs.append(A.build((n,), lambda idx: T.app("uinverse", lam, P(n), P(idx[0]), isint=True), "i", jax))
        if k.get("return_counts"):
            outs.append(A.build((cnt,), lambda idx: T.app("ucount", lam, P(n), P(idx[0]), isint=True), "i", jax))
        return outs[0] if len(outs) == 1 else tuple(outs)

    return f


def np_percentile(name):
    def mk(jax):
        def f(ip, a, k):
            x = arr(a[0])
            q = ga(a, k, 1, "q")
            ax = ga(a, k, 2 if name != "median" else 1, "axis")
            if ax is None and x.ndim > 1:
                x = ravel(x)
            if x.ndim == 1:
                return A.emap(lambda z: T.app(name, arr_key(x), z), arr(q) if name != "median" else T.const(50))
            raise Undecided(name)

        return f

    return mk


def np_nan_to_num(jax):
    def f(ip, a, k):
        v = P(ga(a, k, 2, "nan", 0) if len(a) < 2 else 0)
        return A.emap(lambda p: T.ite(isnan(p), v, p), arr(a[0]))

    return f


def np_isin(jax):
    def f(ip, a, k):
        x, s = arr(a[0]), arr(a[1])
        return A.emap(lambda p: P(A.reduce(A.emap(lambda q: T.eq(q, p), s, dtype="b"), None, "redany")), x, dtype="b")

    return f


def np_count_nonzero(jax):
    def f(ip, a, k):
        return A.reduce(A.emap(T.truth, arr(a[0]), dtype="b"), ga(a, k, 1, "axis"), "sum")

    return f


def np_copy(jax):
    def f(ip, a, k):
        x = a[0]
        if isinstance(x, Arr):
            return Arr(x.shape, x.data, x.dtype, jax)
        return mk_array(jax)(ip, a[:1], {})

    return f


def np_logical_reduce(jax):
    return None


def np_round(jax):
    def f(ip, a, k):
        nd = P(ga(a, k, 1, "decimals", 0))
        return A.emap(lambda p: T.app("round", p, nd) if T.cval(p) is None or T.cval(p).denominator != 1 else p, arr(a[0]))

    return f


def np_cov(jax):
    def f(ip, a, k):
        return Opq("cov", *a)

    return f


def np_tensordot(jax):
    def f(ip, a, k):
        ax = ga(a, k, 2, "axes", 2)
        x, y = arr(a[0]), arr(a[1])
        if ax == 1:
            if x.ndim <= 2 and y.ndim <= 2:
                return dot_general(x, y)
        if ax == 0:
            return A.build(x.shape + y.shape, lambda idx: T.mul(x.get(idx[: x.ndim]), y.get(idx[x.ndim :])), "f", jax)
        raise Undecided("tensordot")

    return f


def np_split(jax):
    def f(ip, a, k):
        x = arr(a[0])
        s = ga(a, k, 1, "indices_or_sections")
        ax = A.norm_axis(ga(a, k, 2, "axis", 0), x.ndim)
        n = x.shape[ax]
        pre = tuple([Sl(None, None, None)] * ax)
        if A.intval(s) is not None:
            if not isinstance(n, int):
                raise Undecided("split of a symbolic axis")
            m = A.intval(s)
            if n % m:
                raise PyError("ValueError", "array split does not result in an equal division")
            cuts = [n // m * j for j in range(1, m)]
        else:
            cuts = ip.iterate(s)
        pts = [None] + cuts + [None]
        return [A.getitem(x, pre + (Sl(p, q, None),))[0] for p, q in zip(pts, pts[1:])]

    return f


def np_ix(jax):
    raise Undecided("ix_")


def np_apply_where(jax):
    return None


def piecewise(jax):
    def f(ip, a, k):
        x = arr(a[0])
        conds = [arr(c) for c in ip.iterate(a[1])]
        fs = ip.iterate(a[2])
        ev = lambda g: ip.call(g, [x]) if not A.is_arraylike(g) else g
        r = arr(ev(fs[-1])) if len(fs) > len(conds) else T.ZERO
        for c, g in reversed(list(zip(conds, fs))):
            r = A.emap(T.ite, c, arr(ev(g)), r)
        return r

    return f


def polyval(jax):
    def f(ip, a, k):
        cs = ip.iterate(a[0])
        x = arr(a[1])
        r = T.ZERO
        for c in cs:
            r = A.emap(lambda p, q, z: T.add(T.mul(p, q), z), r, x, arr(c))
        return r

    return f


MK = {
    "ones": lambda j: filled(j, 1),
    "zeros": lambda j: filled(j, 0),
    "empty": lambda j: filled(j, "empty"),
    "full": lambda j: filled(j, "full"),
    "ones_like": lambda j: filled_like(j, 1),
    "zeros_like": lambda j: filled_like(j, 0),
    "empty_like": lambda j: filled_like(j, "empty"),
    "full_like": lambda j: filled_like(j, "full"),
    "array": lambda j: mk_array(j, True),
    "asarray": lambda j: mk_array(j, False),
    "asanyarray": lambda j: mk_array(j, False),
    "ascontiguousarray": lambda j: mk_array(j, False),
    "require": require_,
    "arange": arange,
    "linspace": lambda j: linspace(j, "lin"),
    "logspace": lambda j: linspace(j, "log"),
    "geomspace": lambda j: linspace(j, "geom"),
    "eye": eye,
    "identity": eye,
    "diag": diag,
    "diagonal": diag,
    "tril": lambda j: tri(j, True),
    "triu": lambda j: tri(j, False),
    "tril_indices": lambda j: tri_indices(j, True),
    "triu_indices": lambda j: tri_indices(j, False),
    "dot": np_dot,
    "matmul": np_dot,
    "inner": np_dot,
    "vdot": np_dot,
    "tensordot": np_tensordot,
    "outer": outer,
    "einsum": einsum,
    "sum": red("sum"),
    "prod": red("prod"),
    "max": red("redmax"),
    "amax": red("redmax"),
    "min": red("redmin"),
    "amin": red("redmin"),
    "mean": np_mean,
    "average": np_average,
    "var": np_var(False),
    "std": np_var(True),
    "all": np_all,
    "any": np_any,
    "cumsum": cum("sum"),
    "cumprod": cum("prod"),
    "diff": np_diff,
    "ediff1d": np_diff,
    "gradient": np_gradient,
    "trapezoid": np_trapz,
    "trapz": np_trapz,
    "concatenate": concatenate,
    "concat": concatenate,
    "stack": np_stack,
    "hstack": hstack,
    "vstack": vstack,
    "row_stack": vstack,
    "column_stack": column_stack,
    "fromiter": fromiter,
    "delete": np_delete,
    "atleast_1d": at_least(1),
    "atleast_2d": at_least(2),
    "where": np_where,
    "select": np_select,
    "piecewise": piecewise,
    "clip": np_clip,
    "take": np_take,
    "argmax": argext("max"),
    "argmin": argext("min"),
    "nanargmax": argext("max", True),
    "nanargmin": argext("min", True),
    "nanmin": nanred("min"),
    "nanmax": nanred("max"),
    "nansum": nansum,
    "interp": np_interp,
    "searchsorted": np_searchsorted,
    "digitize": np_digitize,
    "broadcast_to": np_broadcast_to,
    "tile": np_tile,
    "repeat": np_repeat,
    "flip": np_flip,
    "roll": np_roll,
    "expand_dims": np_expand,
    "squeeze": np_squeeze,
    "transpose": np_transpose,
    "swapaxes": np_swapaxes,
    "moveaxis": lambda j: np_swapaxes(j, True),
    "reshape": np_reshape,
    "ravel": lambda j: lambda ip, a, k: ravel(arr(a[0])),
    "meshgrid": np_meshgrid,
    "append": np_append,
    "insert": np_insert,
    "pad": np_pad,
    "allclose": np_allclose,
    "array_equal": np_allclose,
    "shape": np_shape,
    "size": lambda j: lambda ip, a, k: A.size_of(arr(a[0])),
    "ndim": lambda j: lambda ip, a, k: len(A.shape_of(arr(a[0]))),
    "fill_diagonal": np_fill_diagonal,
    "sort": np_sort,
    "argsort": np_argsort,
    "unique": np_unique,
    "percentile": np_percentile("percentile"),
    "quantile": np_percentile("quantile"),
    "median": np_percentile("median"),
    "nan_to_num": np_nan_to_num,
    "isin": np_isin,
    "in1d": np_isin,
    "count_nonzero": np_count_nonzero,
    "nonzero": lambda j: lambda ip, a, k: nonzero(arr(a[0]), j),
    "flatnonzero": lambda j: lambda ip, a, k: nonzero(arr(a[0]), j)[0],
    "copy": np_copy,
    "round": np_round,
    "around": np_round,
    "split": np_split,
    "polyval": polyval,
    "isscalar": lambda j: lambda ip, a, k: A.is_num(a[0]) and True,
    "iterable": lambda j: lambda ip, a, k: isinstance(a[0], (list, tuple, NT, dict)) or (isinstance(a[0], Arr)),
    "broadcast_arrays": lambda j: lambda ip, a, k: (lambda s: [A.build(s, (lambda x: lambda idx: A.bget(x, idx))(arr(v)), A.dtype_of(arr(v)), j) if s else arr(v) for v in a])(A.bshape(*[A.shape_of(arr(v)) for v in a])),
    "float64": None,
}

DTYPES = (
    "float32 float64 float16 float_ int32 int64 int16 int8 uint8 uint32 uint64 int_ bool_ double single intp longdouble floating integer number generic ndarray Array inexact"
).split()


def cast_prim(jax, name):
    def f(ip, a, k):
        if name in ("ndarray", "Array"):
            raise Undecided("ndarray constructor")
        return narrow(cast(arr(a[0]), dt_of(Prim(name, None))), width(name))

    return Prim(name, f)


_tables = {}


def np_attr(jax):
    cache = {}

    def get(ip, name):
        if name in cache:
            return cache[name]
        v = None
        if name in EW:
            v = Prim("np." + name, elementwise(EW[name])(jax))
        elif name in EWB:
            v = Prim("np." + name, elementwise(EWB[name], "b")(jax))
        elif name in DTYPES:
            v = cast_prim(jax, name)
        elif MK.get(name) is not None:
            v = Prim("np." + name, MK[name](jax))
        elif name in ("r_", "c_"):
            v = Opq("np." + name, jax)
        elif name == "vectorize":

            def vec(ip, a, k):
                from .prims_ext import vmap_call

                fn = a[0]

                def run(ip, b, kk):
                    shp = A.bshape(*[A.shape_of(arr(x)) for x in b])
                    if not shp:
                        return ip.call(fn, b, kk)
                    if len(shp) != 1:
                        raise Undecided("vectorize over a %d-d array" % len(shp))
                    return vmap_call(ip, fn, [0 if A.shape_of(arr(x)) else None for x in b], 0, b, kk)

                return Prim("vectorized", run)

            v = Prim("np.vectorize", vec)
        elif name in ("pi",):
            v = T.PI
        elif name == "e":
            v = T.exp(T.ONE)
        elif name in ("inf", "Inf", "infty"):
            v = T.INF
        elif name in ("nan", "NaN", "NAN"):
            v = T.NAN
        elif name == "dtype":
            v = Prim("np.dtype", lambda ip, a, k: Opq("dtype", dt_of(a[0])) if not isinstance(a[0], list) else Opq("recdtype"))
        elif name == "finfo":
            v = Prim("np.finfo", lambda ip, a, k: Opq("finfo"))
        elif name == "errstate":
            v = Prim("np.errstate", lambda ip, a, k: None)
        elif name == "seterr":
            v = Prim("np.seterr", lambda ip, a, k: None)
        elif name == "linalg":
            from .prims_ext import linalg_module

            v = linalg_module(ip, jax)
        elif name in ("load", "loadtxt", "genfromtxt"):

            def ld(ip, a, k, name=name):
                h = ip.env_externals.get("np." + name)
                if h is not None:
                    return h(ip, a, k)
                return Opq("np." + name, *a)

            v = Prim("np." + name, ld)
        elif name in ("save", "savez", "savetxt"):

            def sv(ip, a, k, name=name):
                h = ip.env_externals.get("np." + name)
                if h is not None:
                    return h(ip, a, k)

            v = Prim("np." + name, sv)
        elif name == "random" and not jax:
            from .prims_ext import np_random

            v = np_random(ip)
        elif name == "r_" or name == "c_" or name == "s_":
            raise Undecided("no model for np.%s" % name)
        if v is None:
            return None
        cache[name] = v
        return v

    return get


def prim_attr(ip, o, name):
    """methods of ufuncs"""
    n = o.name
    if not n.startswith("np."):
        return None
    n = n[3:]
    red_ = {"maximum": "redmax", "minimum": "redmin", "fmax": "redmax", "fmin": "redmin", "add": "sum", "multiply": "prod", "logical_or": "redany", "logical_and": "redall"}
    if name == "accumulate" and n in red_:

        def acc(ip, a, k):
            x = arr(a[0])
            return cum_axis(x, ga(a, k, 1, "axis", 0), red_[n], isinstance(x, Arr) and x.jax)

        return Prim("accumulate", acc)
    if name == "reduce" and n in red_:

        def rd(ip, a, k):
            x = a[0]
            if isinstance(x, (list, tuple)) and n == "logical_and":
                r = arr(x[0])
                for y in x[1:]:
                    r = A.emap(EWB["logical_and"], r, arr(y), dtype="b")
                return r
            if isinstance(x, (list, tuple)) and n == "logical_or":
                r = arr(x[0])
                for y in x[1:]:
                    r = A.emap(EWB["logical_or"], r, arr(y), dtype="b")
                return r
            x = arr(x)
            if n == "logical_and":
                return np_all(False)(ip, [x], {"axis": ga(a, k, 1, "axis", 0)})
            return A.reduce(x, ga(a, k, 1, "axis", 0), red_[n])

        return Prim("reduce", rd)
    if name == "outer":

        def out(ip, a, k):
            x, y = arr(a[0]), arr(a[1])
            f = EW.get(n) or EWB.get(n)
            return A.build(x.shape + y.shape, lambda idx: f(x.get(idx[: x.ndim]), y.get(idx[x.ndim :])), "f", x.jax)

        return Prim("outer", out)
    return None


# ---------------------------------------------------------------- array attributes
def array_attr(ip, o, name):
    from .prims import AtIndexer

    jax = o.jax if isinstance(o, Arr) else True
    if name == "shape":
        return tuple(A.shape_of(o))
    if name == "size":
        return A.size_of(o)
    if name == "ndim":
        return len(A.shape_of(o))
    if name == "dtype":
        return Opq("dtype", A.dtype_of(o))
    if name == "T":
        if not isinstance(o, Arr):
            return o
        r = A.transpose(o)
        if not o.jax:
            r.view_of = (o, lambda par: A.transpose(par), lambda par, new: A.store(par, A.transpose(new)))
            r.seen = o.version()
            r.origin = o.origin
        return r
    if name == "real":
        return o
    if name == "at":
        if not isinstance(o, Arr):
            raise Undecided("scalar .at")
        if not o.jax:
            raise PyError("AttributeError", "numpy array has no attribute at")
        return AtIndexer(o)
    if name in ("astype",):

        def astype(ip, a, k):
            d = ga(a, k, 0, "dtype")
            if isinstance(o, Arr) and not jax and not _truthy(k.get("copy", True)) and dt_of(d) == o.dtype and not (NARROW[0] and width(d)):
                return o
            r = narrow(cast(arr(o), dt_of(d)), width(d))
            if isinstance(r, Arr):
                r = Arr(r.shape, r.data, r.dtype, jax)
            return r

        return Prim("astype", astype)
    if name in ("sum", "prod", "max", "min", "mean", "std", "var", "any", "all", "cumsum", "cumprod", "argmax", "argmin", "dot", "clip", "take", "repeat", "squeeze", "diagonal", "argsort", "swapaxes", "round", "searchsorted", "nonzero"):
        f = MK[name](jax)
        if name == "clip":

            def clp(ip, a, k):
                return clip(arr(o), ga(a, k, 0, "min", k.get("a_min")), ga(a, k, 1, "max", k.get("a_max")))

            return Prim("clip", clp)
        return Prim(name, lambda ip, a, k: f(ip, [o] + a, k))
    if name == "reshape":

        def rs(ip, a, k):
            s = a if len(a) != 1 else a[0]
            r = A.reshape(arr(o), shape_arg(ip, tuple(s) if isinstance(s, list) else s))
            if isinstance(o, Arr) and not o.jax and isinstance(r, Arr) and r is not o:
                shp0 = o.shape
                shp1 = r.shape
                r.view_of = (o, lambda par: A.reshape(par, shp1), lambda par, new: A.store(par, A.reshape(new, shp0)))
                r.seen = o.version()
                r.origin = o.origin
            return r

        return Prim("reshape", rs)
    if name in ("ravel",):
        return Prim(name, lambda ip, a, k: ravel(arr(o)))
    if name == "flatten":

        def fl(ip, a, k):
            r = ravel(arr(o))
            return Arr(r.shape, r.data, r.dtype, r.jax)

        return Prim(name, fl)
    if name == "transpose":

        def tr(ip, a, k):
            if not a:
                return array_attr(ip, o, "T")
            return A.transpose(o, [A.intval(z) for z in (a[0] if isinstance(a[0], (tuple, list)) else a)])

        return Prim(name, tr)
    if name in ("copy", "__array__", "block_until_ready", "conj", "__copy__"):

        def cp(ip, a, k):
            return Arr(o.shape, o.data, o.dtype, o.jax) if isinstance(o, Arr) else o

        return Prim(name, cp)
    if name == "item":
        return Prim(name, lambda ip, a, k: o.get([0] * o.ndim) if isinstance(o, Arr) and not a else (o.get(list(a)) if isinstance(o, Arr) else o))
    if name == "tolist":
        from .prims import b_list

        return Prim(name, lambda ip, a, k: b_list(ip, [o], {}) if isinstance(o, Arr) else o)
    if name == "fill":

        def fill(ip, a, k):
            A.store(o, A.build(o.shape, lambda idx: P(a[0]), o.dtype, False))

        return Prim(name, fill)
    if name == "sort" and isinstance(o, Arr):

        def srt(ip, a, k):
            A.store(o, np_sort(False)(ip, [o], {}))

        return Prim(name, srt)
    if name in ("numerator", "is_integer", "as_integer_ratio"):
        raise Undecided("number attribute %s" % name)
    if name == "names":
        return None
    if name == "attrs":
        return Opq("attrs", o)
    if name == "keys":
        return None
    raise_if = ("strides", "flags", "flat", "nbytes", "itemsize", "base", "data", "imag", "device", "devices", "weak_type", "sharding")
    if name in raise_if:
        raise Undecided("array attribute %s" % name)
    return None
