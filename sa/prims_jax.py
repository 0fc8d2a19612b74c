"""Models of the jax transformations, control-flow combinators and random streams."""

import itertools
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError, Sl
from .terms import Poly, Undecided, P
from .interp import NT, NTClass, FileV, Func, MapSeq, Opq, Phi, Prim, SymSeq, merge
from .prims import arr, term_key, pybool
from .prims_np import ga, shape_arg, cast, dt_of, tanh

FULL = Sl(None, None, None)


# ------------------------------------------------------------------ pytrees
def is_leaf(v):
    return not isinstance(v, (tuple, list, dict, NT)) and v is not None


def tree_map(f, v, *rest):
    if v is None:
        return None
    if isinstance(v, NT):
        return NT(v.cls, [tree_map(f, x, *[r.vals[i] if isinstance(r, NT) else r[i] for r in rest]) for i, x in enumerate(v.vals)])
    if isinstance(v, (tuple, list)):
        for r in rest:
            rv = r.vals if isinstance(r, NT) else r
            if not isinstance(r, (tuple, list, NT)) or len(rv) != len(v):
                raise PyError("ValueError", "pytree structure mismatch")
        return type(v)(tree_map(f, x, *[(r.vals if isinstance(r, NT) else r)[i] for r in rest]) for i, x in enumerate(v))
    if isinstance(v, dict):
        return {k: tree_map(f, x, *[r[k] for r in rest]) for k, x in v.items()}
    return f(v, *rest)


def leaves(v):
    if v is None:
        return []
    if isinstance(v, NT):
        return [y for x in v.vals for y in leaves(x)]
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in leaves(x)]
    if isinstance(v, dict):
        return [y for k in sorted(v, key=repr) for y in leaves(v[k])]
    return [v]


def children(v):
    if isinstance(v, NT):
        return list(v.vals)
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, dict):
        return list(v.values())
    return None


def as_axis(ax):
    if ax is None:
        return None
    if isinstance(ax, (int, Fraction)):
        return int(ax)
    if isinstance(ax, Poly) and T.cval(ax) is not None:
        return int(T.cval(ax))
    return ax


def zip_axes(v, ax, out):
    """collect (leaf, axis) pairs; ax is a prefix tree"""
    ax = as_axis(ax)
    if v is None:
        return
    cv = children(v)
    if cv is None:
        if ax is not None and not isinstance(ax, int):
            raise PyError("ValueError", "vmap in_axes does not match the argument structure")
        out.append((v, ax))
        return
    if ax is None or isinstance(ax, int):
        for x in cv:
            zip_axes(x, ax, out)
        return
    ca = children(ax)
    if ca is None or len(ca) != len(cv):
        raise PyError("ValueError", "vmap in_axes does not match the argument structure")
    for x, y in zip(cv, ca):
        zip_axes(x, y, out)


def map_axes(v, ax, f):
    ax = as_axis(ax)
    if v is None:
        return None
    cv = children(v)
    if cv is None:
        return f(v, ax)
    if ax is None or isinstance(ax, int):
        subs = [map_axes(x, ax, f) for x in cv]
    else:
        subs = [map_axes(x, y, f) for x, y in zip(cv, children(ax))]
    if isinstance(v, NT):
        return NT(v.cls, subs)
    if isinstance(v, dict):
        return dict(zip(v.keys(), subs))
    return type(v)(subs)


def axis_of(x, ax, who):
    if isinstance(x, (SymSeq, MapSeq)):
        x = x.sym_to_array(True)
    shp = A.shape_of(arr(x))
    if len(shp) == 0:
        raise PyError("ValueError", "%s: mapped argument is a scalar" % who)
    if ax < 0:
        ax += len(shp)
    if not 0 <= ax < len(shp):
        raise PyError("ValueError", "%s: axis out of range" % who)
    return ax, shp[ax]


def take_axis(x, ax, i):
    a = arr(x)
    k, _ = axis_of(a, ax, "vmap")
    return A.getitem(a, (FULL,) * k + (i,))[0]


def move_front(r, ax):
    """axis 0 of r moved to position ax"""
    nd = len(A.shape_of(r))
    if ax < 0:
        ax += nd
    if ax == 0:
        return r
    perm = list(range(1, nd))
    perm.insert(ax, 0)
    return A.transpose(r, perm)


def vmap_call(ip, fn, in_axes, out_axes, args, kw, symbolic=False):
    args = list(args)
    ia = as_axis(in_axes)
    if ia is None or isinstance(ia, int):
        axes = [ia] * len(args)
    else:
        axes = list(ia.vals if isinstance(ia, NT) else ia)
        if len(axes) != len(args):
            raise PyError("ValueError", "vmap in_axes has %d entries for %d arguments" % (len(axes), len(args)))
    pairs = []
    for a, x in zip(args, axes):
        zip_axes(a, x, pairs)
    for v in kw.values():
        zip_axes(v, 0, pairs)
    n = None
    for v, x in pairs:
        if x is None:
            continue
        _, s = axis_of(v, x, "vmap")
        if n is None:
            n = s
        elif not A.same_dim(n, s):
            raise PyError("ValueError", "vmap got inconsistent sizes for array axes to be mapped")
    if n is None:
        raise PyError("ValueError", "vmap must have at least one non-None value in in_axes")

    def one(i):
        def f(v, x):
            return v if x is None else take_axis(v, x, i)

        a = [map_axes(v, x, f) for v, x in zip(args, axes)]
        k = {q: map_axes(v, 0, f) for q, v in kw.items()}
        return ip.call(fn, a, k)

    if A.unrolled(n) and not symbolic:
        if n == 0:
            raise Undecided("vmap over an empty axis")
        rs = [one(i) for i in range(n)]

        def comb(ls, x):
            if x is None:
                return ls[0]
            return move_front(A.stack([arr(z) for z in ls]), x)

        return tree_zip(rs, out_axes, comb)
    q = T.fresh_idx(P(n), "v")
    r = one(q)

    def fin(v, x):
        if x is None:
            return v
        if isinstance(v, (str, Opq)):
            return v
        return move_front(A.from_symbolic(n, q, arr(v)), x)

    return map_axes(r, out_axes, fin)


def tree_zip(rs, ax, comb):
    """combine equal-structure results"""
    v = rs[0]
    ax = as_axis(ax)
    cv = children(v)
    if v is None:
        return None
    if cv is None:
        return comb(rs, ax)
    allc = [children(r) for r in rs]
    subs = []
    for i in range(len(cv)):
        x = ax if (ax is None or isinstance(ax, int)) else children(ax)[i]
        subs.append(tree_zip([c[i] for c in allc], x, comb))
    if isinstance(v, NT):
        return NT(v.cls, subs)
    if isinstance(v, dict):
        return dict(zip(v.keys(), subs))
    return type(v)(subs)


def j_vmap(ip, a, k):
    fn = ga(a, k, 0, "fun")
    ia = ga(a, k, 1, "in_axes", 0)
    oa = ga(a, k, 2, "out_axes", 0)
    if fn is None:
        raise Undecided("vmap without a function")
    p = Prim("vmapped", lambda ip, b, kk: vmap_call(ip, fn, ia, oa, b, kk))
    p.inner = fn
    return p


# ------------------------------------------------------------------ jit & friends
def j_jit(ip, a, k):
    if a:
        return a[0]
    if "fun" in k:
        return k["fun"]
    return Prim("jit", lambda ip, b, kk: b[0])


def j_partial(ip, a, k):
    f, pre, pk = a[0], list(a[1:]), dict(k)

    def run(ip, b, kk):
        d = dict(pk)
        d.update(kk)
        return ip.call(f, pre + list(b), d)

    p = Prim("partial", run)
    p.inner = f
    return p


# ------------------------------------------------------------------ derivatives
GRAD_LIMIT = 4000


def zvar(ip, i, idx=()):
    return T.var("z%d.%d" % (ip.grad_depth, i), *idx)


def derivative(ip, fn, argnums, has_aux, args, kw):
    """(value, aux, gradient tree(s)) of a scalar-valued call"""
    single = isinstance(argnums, (int, Fraction, Poly))
    nums = [as_axis(argnums)] if single else [as_axis(x) for x in argnums]
    args = list(args)
    nums = [n + len(args) if n < 0 else n for n in nums]
    for n in nums:
        if n >= len(args):
            raise PyError("ValueError", "grad argnums out of range")
    ip.grad_depth = getattr(ip, "grad_depth", -1) + 1
    counter = [0]
    m = {}
    slots = []

    def mk(v):
        a = arr(v)
        if isinstance(a, Arr):
            i = counter[0]
            counter[0] += 1

            def el(idx):
                z = zvar(ip, i, [P(x) for x in idx])
                return z

            r = A.build(a.shape, el, "f", True)
            slots.append((i, a, r))
            return r
        i = counter[0]
        counter[0] += 1
        z = zvar(ip, i)
        m[T.single_atom(z)] = P(a)
        slots.append((i, P(a), z))
        return z

    zargs = list(args)
    for n in nums:
        zargs[n] = tree_map(mk, args[n])
    try:
        out = ip.call(fn, zargs, kw)
    finally:
        ip.grad_depth -= 1
    aux = None
    if has_aux:
        out, aux = ip.iterate(out, 2)
    L = arr(out)
    if isinstance(L, Arr):
        if A.size_of(L) != 1 or L.ndim:
            raise PyError("TypeError", "Gradient only defined for scalar-output functions")
        L = L.get([])
    names = {}
    for i, a, z in slots:
        if isinstance(z, Arr):
            names["z%d.%d" % (ip.grad_depth + 1, i)] = (a, z)

    def back(p):
        p = T.subst(p, m) if m else p
        if names:

            def fa(at):
                if at.kind == "var" and at.args[0] in names:
                    a, z = names[at.args[0]]
                    return a.get([T.cval(x) if T.cval(x) is not None else x for x in at.args[2:]]) if not any(
                        T.cval(x) is not None and T.cval(x).denominator != 1 for x in at.args[2:]
                    ) else None
                return None

            p = T.rewrite(p, fa)
        return p

    def backv(v):
        if v is None or isinstance(v, (str, Opq)):
            return v
        if isinstance(v, Poly):
            return back(v)
        if isinstance(v, Arr):
            return Arr(v.shape, {kk: back(x) for kk, x in v.data.items()}, v.dtype, v.jax)
        return v

    def plain_slots():
        """the arguments are distinct free variables the function sees through these arguments only"""
        seen = set()
        for i, a, z in slots:
            xs = [a] if isinstance(a, Poly) else [a.get(list(ix)) for ix in itertools.product(*[range(d) for d in a.shape])] if all(
                isinstance(d, int) for d in a.shape) else None
            if xs is None:
                return False
            for x in xs:
                at = T.single_atom(P(x))
                if at is None or at.kind != "var" or at in seen:
                    return False
                seen.add(at)
        return not (seen & set(T.all_atoms(L)))

    val = back(L)
    aux = tree_map(backv, aux) if has_aux else None
    it = iter(list(slots))

    def partial_of(z):
        za = T.single_atom(z)
        if L.size <= GRAD_LIMIT and not any(at.kind == "app" for at in T.all_atoms(L)):
            try:
                d = T.diff(L, za)
                if not any(at.kind == "app" and at.args[0] == "D" for at in T.all_atoms(d)):
                    return back(d)
            except (Undecided, T.TooBig):
                pass
        return back_at(L, z)

    plain = getattr(ip, "partials", False) and plain_slots()

    def back_at(L, z):
        if plain:
            return T.app("dpart", T.app("lam0", val), back(z))
        # derivative of the whole expression, kept as one node
        env = tuple(x for i, a, zz in slots for x in ([a] if isinstance(a, Poly) else []))
        key = tuple(term_key(a) for i, a, zz in slots)
        return T.app("Dat", T.app("lamz", L), z if not names else z, *key)

    def gr(v):
        i, a, z = next(it)
        if isinstance(z, Arr):
            return A.build(z.shape, lambda idx: partial_of(z.get(idx)), "f", True)
        return partial_of(z)

    grads = [tree_map(gr, args[n]) for n in nums]
    return val, aux, (grads[0] if single else tuple(grads))


def j_grad(with_value):
    def mk(ip, a, k):
        fn = ga(a, k, 0, "fun")
        nums = ga(a, k, 1, "argnums", 0)
        has_aux = pybool(ip.truth(ga(a, k, 2, "has_aux", False)))

        def run(ip, b, kk):
            v, aux, g = derivative(ip, fn, nums, has_aux, b, kk)
            if with_value:
                return ((v, aux), g) if has_aux else (v, g)
            return (g, aux) if has_aux else g

        p = Prim("value_and_grad" if with_value else "grad", run)
        p.inner = fn
        return p

    return mk


def j_jac(ip, a, k):
    fn = ga(a, k, 0, "fun")
    nums = ga(a, k, 1, "argnums", 0)

    def run(ip, b, kk):
        def comp(idx):
            def pick(ip, c, ck):
                r = arr(ip.call(fn, c, ck))
                return r.get(list(idx)) if isinstance(r, Arr) else r

            return derivative(ip, Prim("component", pick), nums, False, b, kk)[2]

        r = arr(ip.call(fn, b, kk))
        if not isinstance(r, Arr):
            return comp(())
        if r.ndim != 1 or not A.unrolled(r.shape[0]):
            raise Undecided("jacobian of a large array")
        rows = [comp((i,)) for i in range(r.shape[0])]
        return tree_zip(rows, 0, lambda ls, x: A.stack([arr(z) for z in ls]))

    return Prim("jacobian", run)


# ------------------------------------------------------------------ lax
def l_cond(ip, a, k):
    pred, tf, ff = a[0], a[1], a[2]
    ops = list(a[3:])
    if "operand" in k:
        ops.append(k["operand"])
    c = ip.truth(pred)
    return ip.merge_calls(c, lambda: ip.call(tf, ops), lambda: ip.call(ff, ops))


def l_select(ip, a, k):
    p, x, y = arr(a[0]), arr(a[1]), arr(a[2])
    return A.emap(T.ite, cast(p, "b") if isinstance(p, Arr) else ip.truth(p), x, y, dtype="f")


def l_switch(ip, a, k):
    i, brs, ops = a[0], ip.iterate(a[1]), list(a[2:])
    i = P(arr(i))
    n = len(brs)

    def rec(j):
        if j == n - 1:
            return ip.call(brs[j], ops)
        c = T.le(i, T.const(j))
        return ip.merge_calls(c, lambda: ip.call(brs[j], ops), lambda: rec(j + 1))

    return rec(0)


def l_scan(ip, a, k):
    f, init = a[0], a[1]
    xs = ga(a, k, 2, "xs")
    length = ga(a, k, 3, "length")
    rev = pybool(ip.truth(ga(a, k, 4, "reverse", False)))
    ls = leaves(xs)
    n = None
    for x in ls:
        s = A.shape_of(arr(x))
        if not s:
            raise PyError("ValueError", "scan over a scalar")
        if n is None:
            n = s[0]
        elif not A.same_dim(n, s[0]):
            raise PyError("ValueError", "scan got inconsistent sizes")
    if n is None:
        n = A.norm_dim(length)

    def item(i):
        if rev:
            i = T.sub(P(n), T.add(P(i), T.ONE))
            i = A.intval(i) if A.intval(i) is not None else i
        return tree_map(lambda v: A.getitem(arr(v), i)[0], xs)

    if isinstance(n, int) and n <= A.UNROLL:
        c, ys = init, []
        for i in range(n):
            c, y = ip.iterate(ip.call(f, [c, item(i)]), 2)
            ys.append(y)
        if rev:
            ys = ys[::-1]
        return (c, tree_zip(ys, 0, lambda l, x: A.stack([arr(z) for z in l])) if ys else None)
    from . import recur

    c, ys = recur.scan(ip, f, init, item, n)
    if rev:
        ys = tree_map(lambda v: A.getitem(v, Sl(None, None, -1))[0], ys)
    return (c, ys)


def l_fori(ip, a, k):
    lo, hi, body, init = a[0], a[1], a[2], a[3]
    n = A.norm_dim(T.sub(P(hi), P(lo)))

    def idx(i):
        r = T.add(P(lo), P(i))
        return A.intval(r) if A.intval(r) is not None else r

    if isinstance(n, int) and n <= 256:
        c = init
        for i in range(n):
            c = ip.call(body, [idx(i), c])
        return c
    from . import recur

    f = Prim("fori", lambda ip, b, kk: (ip.call(body, [b[1], b[0]]), None))
    return recur.scan(ip, f, init, idx, n)[0]


def l_while(ip, a, k):
    cf, bf, init = a[0], a[1], a[2]

    def rec(v, d):
        if d > 64:
            raise Undecided("while_loop not unrolled")
        c = ip.truth(ip.call(cf, [v]))
        return ip.merge_calls(c, lambda: rec(ip.call(bf, [v]), d + 1), lambda: v)

    return rec(init, 0)


def l_map(ip, a, k):
    return vmap_call(ip, a[0], 0, 0, [a[1]], {})


def stop_gradient(ip, a, k):
    if getattr(ip, "stopped", None) is not None:
        ip.stopped.append((a[0], ip.loc))
    if getattr(ip, "stop_opaque", False):
        return tree_map(lambda v: A.emap(lambda p: T.app("stop", p), arr(v)), a[0])
    return a[0]


def elem1(f):
    def g(ip, a, k):
        x = arr(a[0])
        return A.emap(f, x, dtype="f") if isinstance(x, Arr) else P(f(P(x)))

    return g


def relu(p):
    return T.tmax(p, T.ZERO)


def softplus(p):
    return T.log(T.add(T.ONE, T.exp(p)))


NN = {
    "sigmoid": T.sigmoid,
    "relu": relu,
    "softplus": softplus,
    "silu": lambda p: T.mul(p, T.sigmoid(p)),
    "swish": lambda p: T.mul(p, T.sigmoid(p)),
    "tanh": tanh,
    "log_sigmoid": lambda p: T.neg(softplus(T.neg(p))),
    "hard_tanh": lambda p: T.tmin(T.tmax(p, T.neg(T.ONE)), T.ONE),
    "relu6": lambda p: T.tmin(T.tmax(p, T.ZERO), T.const(6)),
}


def nn_softmax(ip, a, k):
    x = arr(a[0])
    e = A.emap(T.exp, x)
    s = A.reduce(e, ga(a, k, 1, "axis", -1), "sum", True)
    return A.emap(T.div, e, s)


def nn_attr(ip, name):
    if name in NN:
        return Prim("nn." + name, elem1(NN[name]))
    if name == "softmax":
        return Prim("nn.softmax", nn_softmax)
    return None


LAX_NP = {
    "log": "log", "exp": "exp", "sqrt": "sqrt", "abs": "abs", "max": "maximum", "min": "minimum", "add": "add",
    "sub": "subtract", "mul": "multiply", "div": "divide", "pow": "power", "neg": "negative", "sign": "sign",
    "floor": "floor", "ceil": "ceil", "tanh": "tanh", "lt": "less", "le": "less_equal", "gt": "greater",
    "ge": "greater_equal", "eq": "equal", "ne": "not_equal", "cumsum": "cumsum", "square": "square",
    "log1p": "log1p", "expm1": "expm1", "erf": "erf", "cummax": "cummax", "sin": "sin", "cos": "cos",
}


def lax_attr(ip, name):
    t = {
        "cond": l_cond, "select": l_select, "switch": l_switch, "scan": l_scan, "fori_loop": l_fori,
        "while_loop": l_while, "map": l_map, "stop_gradient": stop_gradient,
    }.get(name)
    if t is not None:
        return Prim("lax." + name, t)
    if name == "associative_scan":

        def asc(ip, a, k):
            kind = {"np.add": "cumsum", "np.multiply": "cumprod", "np.maximum": "cummax"}.get(getattr(a[0], "name", None))
            if kind is None:
                raise Undecided("associative_scan of %r" % (a[0],))
            return ip.call(__import__("sa.prims_np").prims_np.np_attr(True)(ip, kind), [a[1]], {"axis": 0})

        return Prim("lax.associative_scan", asc)
    if name in ("logistic",):
        return Prim("lax.logistic", elem1(T.sigmoid))
    if name == "rsqrt":
        return Prim("lax.rsqrt", elem1(lambda p: T.pow_rat(p, Fraction(-1, 2))))
    if name == "integer_pow":
        return Prim("lax.integer_pow", lambda ip, a, k: A.emap(lambda p: T.ipow(p, int(T.cval(P(ga(a, k, 1, "y"))))), arr(a[0])))
    if name == "clamp":
        from .prims_np import clip

        return Prim("lax.clamp", lambda ip, a, k: clip(arr(a[1]), a[0], a[2]))
    if name in LAX_NP:
        from .prims_np import np_attr

        return jnp_get(ip, LAX_NP[name])
    return None


_jnp = []


def jnp_get(ip, name):
    from .prims_np import np_attr

    if not _jnp:
        _jnp.append(np_attr(True))
    return _jnp[0](ip, name)


# ------------------------------------------------------------------ random
def use_key(ip, kind, key):
    if key is None:
        raise PyError("TypeError", "random key is None")
    a = arr(key)
    if isinstance(a, Arr):
        if a.ndim == 0:
            a = a.get([])
        else:
            raise PyError("ValueError", "%s accepts a single key, got shape %s" % (kind, A.fmt_shape(a.shape)))
    p = P(a)
    ip.keylog.append((kind, p, ip.loc))
    return p


def r_key(ip, a, k):
    s = ga(a, k, 0, "seed")
    if s is None:
        raise PyError("TypeError", "PRNGKey needs a seed")
    return T.app("prngkey", P(arr(s)))


def r_split(ip, a, k):
    key = use_key(ip, "split", ga(a, k, 0, "key"))
    n = ga(a, k, 1, "num", 2)
    shp = tuple(n) if isinstance(n, (tuple, list)) else (n,)
    return A.build(shp, lambda idx: T.app("split", key, *[P(i) for i in idx]), "key", True)


def r_fold(ip, a, k):
    key = use_key(ip, "fold_in", ga(a, k, 0, "key"))
    return T.app("fold", key, P(arr(ga(a, k, 1, "data"))))


def draw(kind, key, shape):
    if len(shape) == 0:
        return T.app(kind, key)
    return A.build(shape, lambda idx: T.app(kind, key, *[P(i) for i in idx]), "f", True)


def shape_kw(ip, v):
    if v is None:
        return ()
    return tuple(A.norm_dim(x) for x in shape_arg(ip, v))


def narrow(v):
    """name of a draw of this type: the default floating type, or one with visibly fewer values"""
    if v is None or v is float:
        return ""
    n = str(getattr(v, "name", v)).split(".")[-1]
    if n in ("float", "float32", "float64", "float_", "single", "double", "f4", "f8"):
        return ""
    if n in ("float16", "bfloat16", "half", "f2"):
        return "_" + n
    raise Undecided("random draw of type %s" % n)


def r_uniform(ip, a, k):
    key = use_key(ip, "uniform", ga(a, k, 0, "key"))
    shp = shape_kw(ip, ga(a, k, 1, "shape", ()))
    lo, hi = arr(ga(a, k, 3, "minval", 0)), arr(ga(a, k, 4, "maxval", 1))
    u = draw("unif" + narrow(ga(a, k, 2, "dtype")), key, shp)
    return A.emap(lambda u, l, h: T.add(l, T.mul(u, T.sub(h, l))), u, lo, hi, dtype="f")


def r_normal(ip, a, k):
    key = use_key(ip, "normal", ga(a, k, 0, "key"))
    return draw("gauss" + narrow(ga(a, k, 2, "dtype")), key, shape_kw(ip, ga(a, k, 1, "shape", ())))


def r_mvn(ip, a, k):
    key = use_key(ip, "multivariate_normal", ga(a, k, 0, "key"))
    mean, cov = arr(ga(a, k, 1, "mean")), arr(ga(a, k, 2, "cov"))
    shp = ga(a, k, 3, "shape")
    sm, sc = A.shape_of(mean), A.shape_of(cov)
    if len(sm) < 1 or len(sc) < 2:
        raise PyError("ValueError", "multivariate_normal requires mean.ndim >= 1 and cov.ndim >= 2")
    if not A.same_dim(sm[-1], sc[-1]) or not A.same_dim(sm[-1], sc[-2]):
        raise PyError("ValueError", "multivariate_normal: mean and covariance sizes differ")
    batch = A.bshape(sm[:-1], sc[:-2]) if shp is None else shape_kw(ip, shp)
    full = tuple(batch) + (sm[-1],)
    if len(sc) > 2:
        raise Undecided("batched covariance")
    ck = term_key(cov)
    ip.covs[ck] = cov
    b = A.bshape(full, sm)
    if len(b) != len(full):
        raise PyError("ValueError", "multivariate_normal: shape does not fit the mean")
    return A.build(full, lambda idx: T.add(A.bget(mean, idx), T.app("mvn" + narrow(ga(a, k, 4, "dtype")), key, *([P(i) for i in idx] + [ck]))), "f", True)


def r_randint(ip, a, k):
    key = use_key(ip, "randint", ga(a, k, 0, "key"))
    shp = shape_kw(ip, ga(a, k, 1, "shape", ()))
    lo, hi = term_key(ga(a, k, 2, "minval")), term_key(ga(a, k, 3, "maxval"))
    if not shp:
        return T.app("randint", key, lo, hi, isint=True)
    return A.build(shp, lambda idx: T.app("randint", key, lo, hi, *[P(i) for i in idx], isint=True), "i", True)


def r_bernoulli(ip, a, k):
    key = use_key(ip, "bernoulli", ga(a, k, 0, "key"))
    p = arr(ga(a, k, 1, "p", Fraction(1, 2)))
    shp = ga(a, k, 2, "shape")
    shp = A.shape_of(p) if shp is None else shape_kw(ip, shp)
    return A.emap(T.lt, draw("unif", key, shp), p, dtype="b")


def r_other(name):
    def f(ip, a, k):
        key = use_key(ip, name, ga(a, k, 0, "key"))
        rest = tuple(term_key(x) for x in a[1:]) + tuple((q, term_key(v)) for q, v in sorted(k.items()) if q != "key")
        shp = None
        if name in ("gumbel", "exponential", "truncated_normal", "laplace", "logistic"):
            shp = shape_kw(ip, ga(a, k, 3 if name == "truncated_normal" else 1, "shape", ()))
        elif name in ("permutation", "shuffle"):
            x = ga(a, k, 1, "x")
            shp = A.shape_of(arr(x)) or (A.norm_dim(x),)
        elif name == "choice":
            shp = shape_kw(ip, ga(a, k, 2, "shape", ()))
        if shp is None:
            return Opq("random." + name, key)
        if not shp:
            return T.app("rand." + name, key, rest)
        return A.build(shp, lambda idx: T.app("rand." + name, key, rest, *[P(i) for i in idx]), "f", True)

    return f


def random_attr(ip, name):
    t = {
        "PRNGKey": r_key, "key": r_key, "split": r_split, "fold_in": r_fold, "uniform": r_uniform,
        "normal": r_normal, "multivariate_normal": r_mvn, "randint": r_randint, "bernoulli": r_bernoulli,
    }.get(name)
    if t is None and name in ("choice", "permutation", "shuffle", "gumbel", "exponential", "truncated_normal", "laplace", "logistic", "gamma", "beta", "poisson"):
        t = r_other(name)
    if t is None and name in ("wrap_key_data", "key_data", "clone"):
        t = lambda ip, a, k: a[0]
    return Prim("random." + name, t) if t is not None else None
