"""Array values: a shape plus, for every position, a scalar term.

Axes with a small constant extent are unrolled (one term per coordinate); other axes
are described by one term over canonical index variables numbered from the right, so
that equal arrays have identical bodies.
"""

from fractions import Fraction

from . import terms as T
from .terms import Poly, Undecided, P, const, ZERO, ONE

UNROLL = 64


class PyError(Exception):
    """an exception the analysed program itself would raise"""

    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind


_stamp = [0]
journal_hook = [None]
effect_hook = [None]


class Arr:
    __slots__ = ("shape", "_data", "dtype", "jax", "origin", "view_of", "seen", "ver", "masked", "__weakref__")

    def __init__(self, shape, data, dtype="f", jax=True, origin=None):
        self.shape = tuple(shape)
        self._data = data
        self.dtype = dtype
        self.jax = jax
        self.origin = origin
        self.view_of = None  # (parent, reader)
        self.ver = 0
        self.seen = 0
        self.masked = None

    @property
    def data(self):
        v = self.view_of
        if v is not None:
            par = v[0]
            pv = par.version()
            if pv != self.seen:
                self._data = v[1](par)._data
                self.seen = pv
        return self._data

    def version(self):
        if self.view_of is not None:
            return (self.view_of[0].version(), self.ver)
        return self.ver

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        """scalar at an index (ints or Polys)"""
        shape = self.shape
        assert len(idx) == len(shape), (idx, shape)
        coords = []
        m = {}
        picks = None
        n = len(shape)
        for k, s in enumerate(shape):
            i = idx[k]
            if unrolled(s):
                if isinstance(i, Poly):
                    c = T.cval(i)
                    if c is not None:
                        i = int(c)
                if isinstance(i, Poly):
                    if s == 1:
                        coords.append(0)
                    else:
                        if picks is None:
                            picks = []
                        picks.append((len(coords), i, s))
                        coords.append(None)
                else:
                    if i < 0:
                        i += s
                    if not 0 <= i < s:
                        raise PyError("IndexError", "index %s out of bounds for axis of size %s" % (i, s))
                    coords.append(int(i))
            else:
                ca = ci_atom(n - 1 - k, s)
                p = P(i)
                if T.single_atom(p) is not ca:
                    m[ca] = p
        data = self.data
        if picks is None:
            body = data[tuple(coords)]
            return T.subst(body, m) if m else body

        def rec(k, cs):
            if k == len(picks):
                body = data[tuple(cs)]
                return T.subst(body, m) if m else body
            pos, i, s = picks[k]
            elems = []
            for j in range(s):
                c2 = list(cs)
                c2[pos] = j
                elems.append(rec(k + 1, c2))
            return T.pick(i, tuple(elems))

        return rec(0, coords)

    def __repr__(self):
        return "Arr%s%s" % (fmt_shape(self.shape), {k: v for k, v in list(self.data.items())[:4]})


def fmt_shape(s):
    return "(%s)" % ", ".join(str(x) for x in s)


def unrolled(s):
    return isinstance(s, int) and s <= UNROLL


_ci = {}


def ci_atom(pos, n):
    key = (pos, P(n))
    a = _ci.get(key)
    if a is None:
        a = T.atom("idx", "x%d" % pos, P(n))
        _ci[key] = a
    return a


def ci(pos, n):
    return T.of_atom(ci_atom(pos, n))


def any_ci(pos, n):
    """canonical index of an axis; the last position where its length is a number (see terms.any_idx)"""
    c = T.cval(P(n))
    return ci(pos, n) if c is None or not T.DIMVAL else T.const(c - 1)


def norm_dim(n):
    if isinstance(n, bool):
        return int(n)
    if isinstance(n, int):
        return n
    if isinstance(n, Fraction):
        if n.denominator == 1:
            return int(n)
        raise PyError("TypeError", "non-integer dimension")
    if isinstance(n, Poly):
        c = T.cval(n)
        if c is not None:
            return int(c)
        return n
    raise Undecided("dimension %r" % (n,))


def build(shape, f, dtype="f", jax=True):
    shape = tuple(norm_dim(s) for s in shape)
    n = len(shape)
    data = {}
    tot = 1
    for s in shape:
        if unrolled(s):
            tot *= s
    if tot > 40000:
        raise Undecided("array too large to unroll")

    def rec(k, idx, coords):
        if k == n:
            data[tuple(coords)] = P(f(list(idx)))
            return
        s = shape[k]
        if unrolled(s):
            for j in range(s):
                rec(k + 1, idx + [j], coords + [j])
        else:
            rec(k + 1, idx + [ci(n - 1 - k, s)], coords)

    rec(0, [], [])
    return Arr(shape, data, dtype, jax)


def scalar_result(shape, f, dtype="f", jax=True):
    """Arr, or the scalar itself when rank 0"""
    if len(shape) == 0:
        return P(f([]))
    return build(shape, f, dtype, jax)


def is_num(x):
    return isinstance(x, (int, Fraction, Poly, float, bool))


def is_arraylike(x):
    return isinstance(x, (Arr, Poly, int, Fraction, float))


def shape_of(x):
    if isinstance(x, Arr):
        return x.shape
    return ()


def dtype_of(x):
    if isinstance(x, Arr):
        return x.dtype
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, Poly):
        if T.is_bool(x) and T.cval(x) is None:
            return "b"
        if x.isint and T.cval(x) is None:
            return "i"
    return "f"


def sget(x, idx):
    if isinstance(x, Arr):
        return x.get(idx)
    return P(x)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return P(a) is P(b)


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
            elif not same_dim(d, x):
                raise PyError("ValueError", "operands could not be broadcast together: %s" % " ".join(fmt_shape(s) for s in shapes))
        out.append(d)
    return tuple(out)


def bget(x, idx):
    """element of x at a broadcast index"""
    if not isinstance(x, Arr):
        return P(x)
    n = len(x.shape)
    sub = idx[len(idx) - n :] if n else []
    return x.get([0 if (isinstance(s, int) and s == 1) else i for i, s in zip(sub, x.shape)])


def emap(f, *xs, dtype=None, jax=None):
    """elementwise map with broadcasting; scalar when all are scalars"""
    shp = bshape(*[shape_of(x) for x in xs])
    if dtype is None:
        ds = [dtype_of(x) for x in xs]
        dtype = "f" if "f" in ds else ("i" if "i" in ds else "b")
        if "key" in ds:
            dtype = "key"
    if not shp:
        return P(f(*[P(x) for x in xs]))
    if jax is None:
        arrs = [x for x in xs if isinstance(x, Arr)]
        jax = any(a.jax for a in arrs)
    # fast path: all Arr share the shape or are scalars
    if all((not isinstance(x, Arr)) or x.shape == shp for x in xs):
        datas = [x.data if isinstance(x, Arr) else None for x in xs]
        keys = next(d for d in datas if d is not None).keys()
        data = {}
        for k in keys:
            data[k] = P(f(*[d[k] if d is not None else P(x) for d, x in zip(datas, xs)]))
        return Arr(shp, data, dtype, jax)
    return build(shp, lambda idx: f(*[bget(x, idx) for x in xs]), dtype, jax)


def mapdata(a, f, dtype=None):
    return Arr(a.shape, {k: P(f(v)) for k, v in a.data.items()}, dtype or a.dtype, a.jax)


def stack(elems, jax=True, dtype=None):
    """stack a Python list of equal-shape values on a new leading axis"""
    if not elems:
        return Arr((0,), {}, "f", jax)
    shp = bshape(*[shape_of(e) for e in elems])
    for e in elems:
        if shape_of(e) != shp:
            raise PyError("ValueError", "inhomogeneous shape in array construction")
    if dtype is None:
        ds = [dtype_of(e) for e in elems]
        dtype = "key" if "key" in ds else ("O" if "O" in ds else ("f" if "f" in ds else ("i" if "i" in ds else "b")))
    n = len(elems)

    def f(idx):
        i = idx[0]
        if isinstance(i, int):
            return sget(elems[i], idx[1:])
        return T.pick(i, tuple(sget(e, idx[1:]) for e in elems))

    return build((n,) + shp, f, dtype, jax)


def from_symbolic(n, tmp, elem, jax=True):
    """array whose leading axis of length n has element elem with index atom tmp"""
    ta = T.single_atom(tmp)
    n = norm_dim(n)
    shp = shape_of(elem)
    return build((n,) + shp, lambda idx: T.subst(sget(elem, idx[1:]), {ta: P(idx[0])}), dtype_of(elem), jax)


def norm_axis(ax, n):
    ax = int(T.cval(ax)) if isinstance(ax, Poly) else int(ax)
    if ax < 0:
        ax += n
    if not 0 <= ax < n:
        raise PyError("AxisError", "axis out of bounds")
    return ax


def reduce_axis(a, ax, kind):
    n = a.ndim
    ax = norm_axis(ax, n)
    cnt = a.shape[ax]
    shp = a.shape[:ax] + a.shape[ax + 1 :]

    def f(idx):
        def g(j):
            jj = T.cval(j)
            return a.get(idx[:ax] + [int(jj) if jj is not None else j] + idx[ax:])

        if kind == "sum":
            return T.tsum(cnt, g)
        return T.treduce(kind, cnt, g)

    dt = a.dtype
    if kind == "sum" and dt == "b":
        dt = "i"
    return scalar_result(shp, f, dt, a.jax)


def reduce(a, axis, kind, keepdims=False):
    if not isinstance(a, Arr):
        return P(a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [norm_axis(x, a.ndim) for x in axis]
    else:
        axes = [norm_axis(axis, a.ndim)]
    r = a
    for ax in sorted(axes, reverse=True):
        r = reduce_axis(r, ax, kind)
    if keepdims:
        shp = tuple(1 if k in axes else s for k, s in enumerate(a.shape))
        r = reshape(r, shp)
    return r


def size_of(a, axis=None):
    n = 1
    for k, s in enumerate(shape_of(a)):
        if axis is None or k == axis or (isinstance(axis, tuple) and k in axis) or (isinstance(axis, int) and axis + len(a.shape) == k):
            n = dmul(n, s)
    return n


def dmul(a, b):
    return norm_dim(T.mul(P(a), P(b)))


def dadd(a, b):
    return norm_dim(T.add(P(a), P(b)))


def transpose(a, perm=None):
    n = a.ndim
    if perm is None:
        perm = tuple(range(n))[::-1]
    perm = [norm_axis(p, n) for p in perm]
    shp = tuple(a.shape[p] for p in perm)

    def f(idx):
        src = [None] * n
        for k, p in enumerate(perm):
            src[p] = idx[k]
        return a.get(src)

    return build(shp, f, a.dtype, a.jax)


def reshape(a, shp):
    """reshape; handles size-1 axes, flattening/unflattening of unrolled axes and of
    one symbolic axis with unit or constant factors"""
    src = shape_of(a)
    jax = getattr(a, "jax", True)
    shp = [norm_dim(s) for s in shp]
    if any(isinstance(s, int) and s == -1 for s in shp):
        tot = P(size_of(a))
        other = ONE
        for s in shp:
            if not (isinstance(s, int) and s == -1):
                other = T.mul(other, P(s))
        q = T.div(tot, other)
        shp = [norm_dim(q) if (isinstance(s, int) and s == -1) else s for s in shp]
    shp = tuple(shp)
    if src == shp:
        return a
    t1 = P(size_of(a))
    t2 = ONE
    for s in shp:
        t2 = T.mul(t2, P(s))
    if t1 is not t2:
        raise PyError("ValueError", "cannot reshape %s into %s" % (fmt_shape(src), fmt_shape(shp)))
    sa = [s for s in src if not (isinstance(s, int) and s == 1)]
    sb = [s for s in shp if not (isinstance(s, int) and s == 1)]
    if len(sa) == len(sb) and all(same_dim(x, y) for x, y in zip(sa, sb)):

        def f(idx):
            vals = [i for i, s in zip(idx, shp) if not (isinstance(s, int) and s == 1)]
            out = []
            k = 0
            for s in src:
                if isinstance(s, int) and s == 1:
                    out.append(0)
                else:
                    out.append(vals[k])
                    k += 1
            return sget(a, out)

        return scalar_result(shp, f, dtype_of(a), jax)

    # general: linear index
    def f(idx):
        lin = ZERO
        for i, s in zip(idx, shp):
            lin = T.add(T.mul(lin, P(s)), P(i))
        out = []
        for k in range(len(src) - 1, -1, -1):
            s = src[k]
            if k == 0:
                out.append(lin)
                break
            q, r = divmod_index(lin, s)
            out.append(r)
            lin = q
        out = out[::-1]
        return sget(a, [int(T.cval(o)) if T.cval(o) is not None else o for o in out])

    return scalar_result(shp, f, dtype_of(a), jax)


def divmod_index(lin, s):
    """lin = q*s + r with 0 <= r < s, for index expressions"""
    sp = P(s)
    c = T.cval(lin)
    if c is not None and isinstance(s, int):
        return const(int(c) // s), const(int(c) % s)
    q = ZERO
    r = ZERO
    sc = T.cval(sp)
    for m, k in lin.terms.items():
        mono = T._mkpoly({m: k})
        if sc is not None:
            if k % sc == 0:
                q = T.add(q, T.scale(mono, 1 / sc))
            else:
                r = T.add(r, mono)
        else:
            d = T.div(mono, sp)
            if all(e > 0 for mm in d.terms for _, e in mm):
                q = T.add(q, d)
            else:
                r = T.add(r, mono)
    if T.sign_lin(r) in ("0", ">0", ">=0") and T.sign_lin(T.sub(r, sp)) == "<0":
        return q, r
    f = T.app("floordiv", lin, sp, isint=True)
    return f, T.sub(lin, T.mul(f, sp))


def concat(arrs, axis=0, jax=True):
    arrs = [a if isinstance(a, Arr) else None for a in arrs]
    if any(a is None for a in arrs):
        raise PyError("ValueError", "zero-dimensional arrays cannot be concatenated")
    arrs = [a for a in arrs if not (a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] == 0)] or arrs[:1]
    n = arrs[0].ndim
    axis = norm_axis(axis, n)
    for a in arrs:
        if a.ndim != n:
            raise PyError("ValueError", "concatenate: dimension mismatch")
        for k in range(n):
            if k != axis and not same_dim(a.shape[k], arrs[0].shape[k]):
                raise PyError("ValueError", "concatenate: shape mismatch")
    tot = 0
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = dadd(tot, a.shape[axis])
    shp = arrs[0].shape[:axis] + (tot,) + arrs[0].shape[axis + 1 :]
    ds = [a.dtype for a in arrs]
    dt = "O" if "O" in ds else ("key" if "key" in ds else ("f" if "f" in ds else ("i" if "i" in ds else "b")))

    def f(idx):
        i = idx[axis]
        if isinstance(i, int):
            # unrolled result: all extents are ints
            for a, o in zip(arrs, offs):
                if i < o + a.shape[axis]:
                    return a.get(idx[:axis] + [i - o] + idx[axis + 1 :])
        r = None
        for a, o in reversed(list(zip(arrs, offs))):
            j = T.sub(i, P(o))
            v = a.get(idx[:axis] + [j] + idx[axis + 1 :])
            if r is None:
                r = v
            else:
                r = T.ite(T.lt(i, T.add(P(o), P(a.shape[axis]))), v, r)
        return r

    return build(shp, f, dt, jax)


# ------------------------------------------------------------------ indexing
class Sl:
    """slice object with values start/stop/step"""

    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, Sl) and (self.start, self.stop, self.step) == (o.start, o.stop, o.step)

    def __hash__(self):
        return hash((self.start, self.stop, self.step))


ELL = object()  # Ellipsis
NEWAX = None


def intval(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, Poly):
        c = T.cval(x)
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def norm_index(i, n, jax=False):
    """normalise a scalar index for an axis of extent n (negative wraps; a
    jax gather clamps an index beyond a non-empty axis instead of failing)"""
    iv = intval(i)
    if iv is not None:
        if jax and isinstance(n, int) and n > 0 and not -n <= iv < n:
            if jax == "set":
                raise Undecided("a jax update beyond the axis")
            return 0 if iv < 0 else n - 1
        if iv < 0:
            if isinstance(n, int):
                if iv + n < 0:
                    raise PyError("IndexError", "index out of range")
                return iv + n
            return norm_dim(T.add(P(n), const(iv)))
        if isinstance(n, int) and iv >= n:
            raise PyError("IndexError", "index %d out of bounds for size %d" % (iv, n))
        return iv
    p = P(i)
    s = T.sign_lin(p) if T.is_index_expr(p) else None
    if s in ("<0",):
        return T.add(p, P(n))
    return p


def slice_bounds(sl, n):
    """(start, step, length) of a slice on an axis of extent n"""
    step = intval(sl.step) if sl.step is not None else 1
    if step is None:
        raise Undecided("symbolic slice step")
    if step < 0 and sl.start is None and sl.stop is None:
        if step != -1:
            raise Undecided("slice step")
        return norm_dim(T.sub(P(n), ONE)), -1, n
    if isinstance(n, int) and all(x is None or intval(x) is not None for x in (sl.start, sl.stop)):
        s, e, st = slice(
            None if sl.start is None else intval(sl.start), None if sl.stop is None else intval(sl.stop), step
        ).indices(n)
        return s, st, max(0, len(range(s, e, st)))
    if step < 0:
        raise Undecided("negative slice step")

    def clamp(x, dflt):
        if x is None:
            return P(dflt)
        iv = intval(x)
        p = P(x)
        neg = iv is not None and iv < 0
        if iv is None and T.is_index_expr(p) and T.sign_lin(p) == "<0":
            neg = True
        if neg:
            p = T.add(P(n), p)
            if T.is_index_expr(p) and T.sign_lin(p) in ("<0",):
                p = ZERO
            return p
        # min(p, n)
        d = T.sub(p, P(n))
        if T.is_index_expr(d):
            if T.sign_lin(d) in (">0", ">=0", "0"):
                return P(n)
        return p

    s = clamp(sl.start, 0)
    e = clamp(sl.stop, n)
    ln = T.sub(e, s)
    if T.is_index_expr(ln) and T.sign_lin(ln) in ("<0", "<=0"):
        ln = ZERO
    if step != 1:
        k = T.cval(ln)
        if k is None:
            ln = T.app("floordiv", T.add(ln, const(step - 1)), const(step), isint=True)
        else:
            ln = const(-(-int(k) // step))
    return norm_dim(s), step, norm_dim(ln)


def expand_index(idx, ndim):
    if not isinstance(idx, tuple):
        idx = (idx,)
    used = 0
    for i in idx:
        if i is None or i is ELL:
            continue
        if isinstance(i, Arr) and i.dtype == "b":
            used += i.ndim
        else:
            used += 1
    out = []
    done = False
    for i in idx:
        if i is ELL:
            if not done:
                out += [Sl(None, None, None)] * (ndim - used)
                done = True
            continue
        out.append(i)
    if not done:
        out += [Sl(None, None, None)] * (ndim - used)
    if used > ndim:
        raise PyError("IndexError", "too many indices for array")
    return out


def getitem(a, index):
    """read a[index]; returns (value, is_view)"""
    items = expand_index(index, a.ndim)
    # boolean mask
    if any(isinstance(i, Arr) and i.dtype == "b" for i in items):
        return mask_get(a, items), False
    plan = []  # per source axis: ('s', start, step, outaxis) | ('i', idx) | ('a', arr)
    shp = []
    adv = []
    ax = 0
    order = []
    for it in items:
        if it is None:
            shp.append(1)
            order.append("n")
            continue
        n = a.shape[ax]
        if isinstance(it, Sl):
            s, st, ln = slice_bounds(it, n)
            plan.append(("s", s, st, len(shp)))
            shp.append(ln)
        elif isinstance(it, Arr):
            plan.append(("a", it))
            adv.append((len(shp), it))
            shp.append(("adv", len(adv) - 1))
        elif isinstance(it, (list, tuple)):
            arr = to_array(it, a.jax)
            plan.append(("a", arr))
            adv.append((len(shp), arr))
            shp.append(("adv", len(adv) - 1))
        elif is_num(it):
            plan.append(("i", norm_index(it, n, a.jax)))
        else:
            raise Undecided("index %r" % (it,))
        ax += 1
    if not adv:
        view = True

        def f(idx):
            src = []
            for k, p in enumerate(plan):
                if p[0] == "i":
                    src.append(p[1])
                else:
                    i = idx[p[3]]
                    if p[1] == 0 and p[2] == 1:
                        src.append(i)
                    else:
                        if isinstance(i, int) and isinstance(p[1], int):
                            src.append(p[1] + p[2] * i)
                        else:
                            q = T.add(P(p[1]), T.mul(const(p[2]), P(i)))
                            c = T.cval(q)
                            src.append(int(c) if c is not None else q)
            return a.get(src)

        return scalar_result(tuple(shp), f, a.dtype, a.jax), view
    # advanced indexing: the broadcast index block replaces the first advanced axis when
    # the advanced indices are adjacent, else it goes first
    bs = bshape(*[x.shape for _, x in adv])
    pos = [p for p, _ in adv]
    kinds = [p[0] for p in plan]
    axs = [k for k, x in enumerate(kinds) if x in ("a",)]
    adjacent = axs == list(range(axs[0], axs[-1] + 1))
    at = pos[0] if adjacent else 0
    rest = [s for s in shp if not isinstance(s, tuple)]
    before = len([s for s in shp[:at] if not isinstance(s, tuple)]) if adjacent else 0
    full = tuple(rest[:before]) + bs + tuple(rest[before:])
    # map out positions
    outpos = {}
    k = 0
    for j, s in enumerate(shp):
        if not isinstance(s, tuple):
            outpos[j] = k if k < before else k + len(bs)
            k += 1

    def f(idx):
        blk = idx[before : before + len(bs)]
        src = []
        for k2, p in enumerate(plan):
            n = a.shape[k2]
            if p[0] == "i":
                src.append(p[1])
            elif p[0] == "s":
                i = idx[outpos[p[3]]]
                q = T.add(P(p[1]), T.mul(const(p[2]), P(i)))
                c = T.cval(q)
                src.append(int(c) if c is not None else q)
            else:
                v = bget(p[1], blk)
                v = norm_index(v, n, a.jax)
                src.append(v)
        return a.get(src)

    return scalar_result(full, f, a.dtype, a.jax), False


def mask_get(a, items):
    """a[mask]: rows where mask holds; row k is row sel(mask, k) of a"""
    if len(items) >= 1 and isinstance(items[0], Arr) and items[0].dtype == "b":
        mask = items[0]
        if any(not (isinstance(x, Sl) and x == Sl(None, None, None)) for x in items[1:]):
            raise Undecided("mask mixed with other indices")
        if mask.ndim != 1:
            raise Undecided("multi-dimensional mask")
        n = mask.shape[0]
        if not same_dim(n, a.shape[0]):
            raise PyError("IndexError", "boolean index did not match indexed array")
        mk = lam1(mask)
        cnt = T.app("count", mk, P(n), isint=True)
        c = None
        if all(T.cval(v) is not None for v in mask.data.values()) and unrolled(n):
            keep = [j for j in range(n) if T.cval(mask.data[(j,)]) != 0]
            return stack([_row(a, j) for j in keep], a.jax) if keep else build((0,) + a.shape[1:], None, a.dtype, a.jax)
        return build(
            (cnt,) + a.shape[1:],
            lambda idx: a.get([T.app("sel", mk, P(n), P(idx[0]), isint=True)] + idx[1:]),
            a.dtype,
            a.jax,
        )
    raise Undecided("mask indexing")


def _row(a, j):
    r, _ = getitem(a, j)
    return r


def lam1(a):
    """a rank-1 array as one closed term"""
    n = a.shape[0]
    tmp = T.fresh_idx(P(n), "m")
    body = a.get([tmp])
    return T.close("lam", P(n), tmp, body)


def set_data(a, data):
    """replace the contents of a (numpy in-place write)"""
    if journal_hook[0]:
        journal_hook[0](a)
    a._data = data
    a.ver += 1
    if effect_hook[0]:
        effect_hook[0](a)


def whole(p):
    c = T.cval(p)
    if c is not None:
        return const(int(c)) if not isinstance(c, str) else p
    return p if p.isint or T.is_bool(p) else T.app("trunc", p, isint=True)


def updated(a, index, value, op=None):
    """functional a.at[index].set(value) (or combined with op)"""
    if a.dtype == "i" and (isinstance(value, (list, tuple)) or is_arraylike(value)):
        # an array of integers keeps the integer part of what is stored into it
        if isinstance(value, (list, tuple)):
            value = to_array(value, a.jax)
        if isinstance(value, Arr) and value.dtype == "f":
            value = mapdata(value, whole, "i")
        elif not isinstance(value, Arr):
            value = whole(P(value))
    items = expand_index(index, a.ndim)
    if any(isinstance(i, Arr) and i.dtype == "b" for i in items):
        return mask_set(a, items, value, op)
    if any(isinstance(i, (Arr, list)) for i in items):
        return fancy_set(a, items, value, op)
    plan = []
    shp = []
    ax = 0
    for it in items:
        if it is None:
            shp.append(1)
            continue
        n = a.shape[ax]
        if isinstance(it, Sl):
            s, st, ln = slice_bounds(it, n)
            plan.append(("s", s, st, len(shp), ln))
            shp.append(ln)
        elif is_num(it):
            plan.append(("i", norm_index(it, n, a.jax and "set")))
        else:
            raise Undecided("assignment index %r" % (it,))
        ax += 1
    tshape = tuple(norm_dim(s) for s in shp)
    if isinstance(value, (list, tuple)):
        value = to_array(value, a.jax)
    vs = shape_of(value)
    # drop leading ones of value (numpy allows)
    while len(vs) > len(tshape) and isinstance(vs[0], int) and vs[0] == 1:
        value = getitem(value, 0)[0]
        vs = shape_of(value)
    if bshape(tshape, vs) != tshape and not all(same_dim(x, y) for x, y in zip(bshape(tshape, vs), tshape)):
        raise PyError("ValueError", "could not broadcast input array into shape")
    old_all = a

    def f(idx):
        cond = ONE
        tidx = [0] * len(tshape)
        for k, p in enumerate(plan):
            i = idx[k]
            if p[0] == "i":
                cond = T.b_and(cond, T.eq(P(i), P(p[1])))
            else:
                s, st, oax, ln = p[1], p[2], p[3], p[4]
                if s == 0 and st == 1 and same_dim(ln, a.shape[k]):
                    tidx[oax] = i
                    continue
                if st == 1:
                    cond = T.b_and(cond, T.b_and(T.le(P(s), P(i)), T.lt(P(i), T.add(P(s), P(ln)))))
                    q = T.sub(P(i), P(s))
                elif isinstance(i, int) and isinstance(s, int):
                    r = range(s, s + st * ln, st) if isinstance(ln, int) else None
                    if r is None:
                        raise Undecided("strided assignment")
                    if i in r:
                        q = const(r.index(i))
                    else:
                        cond = ZERO
                        q = ZERO
                elif st == -1 and same_dim(ln, a.shape[k]):
                    q = T.sub(P(s), P(i))
                else:
                    raise Undecided("strided assignment")
                c = T.cval(q)
                tidx[oax] = int(c) if c is not None else q
        old = a.get(idx)
        if T.cval(cond) == 0:
            return old
        v = bget(value, tidx)
        if op is not None:
            v = op(old, v)
        return T.ite(cond, v, old)

    dt = a.dtype
    return build(a.shape, f, dt, a.jax)


def mask_set(a, items, value, op):
    mi = [k for k, i in enumerate(items) if isinstance(i, Arr) and i.dtype == "b"]
    if len(mi) != 1:
        raise Undecided("mask assignment")
    mask = items[mi[0]]
    if mi[0] != 0:
        raise Undecided("mask assignment")
    rest = items[1:]
    md = mask.ndim
    if not all(same_dim(x, y) for x, y in zip(mask.shape, a.shape)):
        raise PyError("IndexError", "boolean index did not match")

    # value: scalar or broadcast along the trailing axes, or masked selection of same mask
    def f(idx):
        cond = mask.get(idx[:md])
        for k, r in enumerate(rest):
            i = idx[md + k]
            if isinstance(r, Sl):
                if r == Sl(None, None, None):
                    continue
                s, st, ln = slice_bounds(r, a.shape[md + k])
                if st != 1:
                    raise Undecided("strided mask assignment")
                cond = T.b_and(cond, T.b_and(T.le(P(s), P(i)), T.lt(P(i), T.add(P(s), P(ln)))))
            else:
                cond = T.b_and(cond, T.eq(P(i), P(norm_index(r, a.shape[md + k]))))
        old = a.get(idx)
        vs = shape_of(value)
        if not vs:
            v = P(value)
        elif len(vs) <= len(a.shape) - md and not any(isinstance(r, Sl) is False for r in rest):
            v = bget(value, idx[md:])
        elif vs and isinstance(value, Arr) and md == 1:
            mk = lam1(mask)
            cnt = T.app("count", mk, P(mask.shape[0]), isint=True)
            if isinstance(vs[0], Poly) and vs[0] is cnt:
                # element at rank of this index among selected
                rank = T.app("rank", mk, P(mask.shape[0]), P(idx[0]), isint=True)
                v = value.get([rank] + list(idx[1:])[: len(vs) - 1])
                v = unrank(v, mk, P(mask.shape[0]), P(idx[0]))
            elif isinstance(vs[0], int) and vs[0] == 1:
                v = value.get([0] * len(vs))
            else:
                raise Undecided("mask assignment of array")
        else:
            raise Undecided("mask assignment of array")
        if op is not None:
            v = op(old, v)
        return T.ite(cond, v, old)

    return build(a.shape, f, a.dtype, a.jax)


def unrank(v, mk, n, i):
    """sel(mask, rank(mask, i)) = i"""

    def fa(a):
        if a.kind == "app" and a.args[0] == "sel" and a.args[1] is mk:
            r = T.single_atom(a.args[3])
            if r is not None and r.kind == "app" and r.args[0] == "rank" and r.args[1] is mk:
                return r.args[3]
        return None

    return T.rewrite(v, fa)


def fancy_set(a, items, value, op):
    # a[ix] = v with a one-dimensional integer index on one axis: handled when the
    # index is constant
    k = [j for j, i in enumerate(items) if isinstance(i, (Arr, list))]
    if len(k) != 1:
        # paired constant indices (e.g. tril indices)
        arrs = [to_array(items[j], True) if isinstance(items[j], list) else items[j] for j in k]
        if len(k) == a.ndim and all(x.ndim == 1 and unrolled(x.shape[0]) for x in arrs):
            r = a
            for m in range(arrs[0].shape[0]):
                ix = tuple(intval(x.data[(m,)]) for x in arrs)
                if any(z is None for z in ix):
                    raise Undecided("symbolic index assignment")
                v = bget(value, [m])
                r = updated(r, ix, v, op)
            return r
        raise Undecided("multi-axis index assignment")
    k = k[0]
    ix = items[k] if isinstance(items[k], Arr) else to_array(items[k], True)
    if ix.ndim == 1 and unrolled(ix.shape[0]) and all(T.cval(v) is not None for v in ix.data.values()):
        r = a
        for m in range(ix.shape[0]):
            it = list(items)
            it[k] = intval(ix.data[(m,)])
            vs = shape_of(value)
            nd_after = len([x for x in items[k + 1 :] if isinstance(x, Sl)])
            if len(vs) > nd_after:
                v = getitem(value, tuple([Sl(None, None, None)] * (len(vs) - nd_after - 1) + [m if vs[len(vs) - nd_after - 1] != 1 else 0]))[0]
            else:
                v = value
            r = updated(r, tuple(it), v, op)
        return r
    raise Undecided("symbolic index assignment")


def write(a, index, value, op=None):
    """numpy in-place write"""
    if a.jax:
        raise PyError("TypeError", "JAX arrays are immutable")
    new = updated(a, index, value, op)
    store(a, new)


def store(a, new):
    v = a.view_of
    if v is not None and len(v) > 2:
        par, reader, writer = v
        writer(par, new)
        a._data = new._data
        a.seen = par.version()
        if effect_hook[0]:
            effect_hook[0](a)
        return
    set_data(a, new._data)


def view(a, index):
    """basic-index view of a numpy array"""
    r, isv = getitem(a, index)
    if isinstance(r, Arr) and isv and not a.jax:
        r.view_of = (a, lambda par: getitem(par, index)[0], lambda par, new: store(par, updated(par, index, new)))
        r.seen = a.version()
        r.origin = a.origin
    return r


def to_array(x, jax=True, dtype=None):
    """array from nested Python sequences/scalars"""
    if isinstance(x, Arr):
        if x.jax == jax:
            return x
        r = Arr(x.shape, x.data, x.dtype, jax)
        return r
    if is_num(x):
        return P(x)
    if isinstance(x, (list, tuple)) or hasattr(x, "vals"):
        seq = x.vals if hasattr(x, "vals") else x
        return stack([to_array(e, jax) for e in seq], jax)
    if hasattr(x, "sym_to_array"):
        return x.sym_to_array(jax)
    raise Undecided("array from %r" % (type(x).__name__,))
