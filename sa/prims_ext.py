"""Modules outside the analysed sources."""

from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError, Sl
from .terms import Poly, Undecided, P
from .interp import NT, NTClass, FileV, Func, Instance, MapSeq, Opq, Phi, Prim, RangeV, SymSeq
from .prims import PrimModule, arr, term_key, pybool, b_dict, builtin, hashable
from .prims_np import ga, np_attr, shape_arg
from .prims_jax import (
    vmap_call, j_vmap, j_jit, j_partial, j_grad, j_jac, lax_attr, nn_attr, random_attr,
    tree_map, leaves, draw,
)


# ------------------------------------------------------------------ linear algebra
def la_cholesky(ip, a, k):
    m = arr(a[0])
    key = term_key(m)
    return A.build(m.shape, lambda idx: T.app("chol", key, *[P(i) for i in idx]), "f", m.jax)


def la_inv(ip, a, k):
    m = arr(a[0])
    key = term_key(m)
    return A.build(m.shape, lambda idx: T.app("inv", key, *[P(i) for i in idx]), "f", m.jax)


def la_det(ip, a, k):
    return T.app("det", term_key(arr(a[0])))


def la_solve(ip, a, k):
    b = arr(a[1])
    key = (term_key(arr(a[0])), term_key(b))
    return A.build(b.shape, lambda idx: T.app("solve", key, *[P(i) for i in idx]), "f", b.jax)


def la_norm(ip, a, k):
    x = arr(a[0])
    return A.emap(lambda s: T.pow_rat(s, Fraction(1, 2)), A.reduce(A.emap(T.mul, x, x), ga(a, k, 2, "axis"), "sum"))


def la_opaque(name):
    return lambda ip, a, k: Opq("linalg." + name, *a)


def linalg_module(ip, jax):
    t = {"cholesky": la_cholesky, "inv": la_inv, "det": la_det, "solve": la_solve, "norm": la_norm}

    def get(ip, name):
        if name in t:
            return Prim("linalg." + name, t[name])
        if name in ("LinAlgError",):
            return Prim("LinAlgError", lambda ip, a, k: Opq("LinAlgError"))
        if name in ("eigh", "eigvalsh", "svd", "qr", "lstsq", "slogdet", "matrix_rank", "pinv"):
            return Prim("linalg." + name, la_opaque(name))
        return None

    return PrimModule("linalg", get)


# ------------------------------------------------------------------ numpy.random
def np_random(ip):
    def mk(name):
        def f(ip, a, k):
            ip.effects.append(("np.random", ip.loc))
            ip.nprand = getattr(ip, "nprand", 0) + 1
            kk = T.app("hidden_rng", P(ip.nprand))
            if name in ("seed", "set_state", "shuffle"):
                return None
            size = k.get("size")
            if size is None:
                size = {"uniform": 2, "normal": 2, "rand": 0, "randn": 0, "choice": 1, "randint": 2}.get(name)
                if name in ("rand", "randn"):
                    size = tuple(a)
                else:
                    size = a[size] if size is not None and len(a) > size else None
            if name == "multivariate_normal":
                mean = arr(a[0])
                shp = (() if size is None else tuple(shape_arg(ip, size))) + mean.shape
                return A.build(shp, lambda idx: T.app("hidden", kk, *[P(i) for i in idx]), "f", False)
            shp = () if size is None else tuple(shape_arg(ip, size))
            lo = arr(ga(a, k, 0, "low", k.get("loc", 0)) or 0) if name in ("uniform", "normal") else T.ZERO
            hi = arr(ga(a, k, 1, "high", k.get("scale", 1))) if name in ("uniform", "normal") else T.ONE
            if not shp:
                if name in ("uniform", "normal"):
                    shp = A.bshape(A.shape_of(lo), A.shape_of(hi))
            d = A.build(shp, lambda idx: T.app("hidden", kk, *[P(i) for i in idx]), "f", False) if shp else T.app("hidden", kk)
            if name == "uniform":
                return A.emap(lambda u, l, h: T.add(l, T.mul(u, T.sub(h, l))), d, lo, hi, dtype="f")
            if name == "normal":
                return A.emap(lambda u, l, h: T.add(l, T.mul(u, h)), d, lo, hi, dtype="f")
            return d

        return Prim("np.random." + name, f)

    def rs(ip, a, k):
        seed = a[0] if a else k.get("seed")
        if seed is None:
            ip.effects.append(("np.random", ip.loc))
        return Opq("RandomState", seed)

    def get(ip, name):
        if name in ("RandomState", "default_rng", "Generator"):
            return Prim("np.random." + name, rs)
        return mk(name)

    return PrimModule("numpy.random", get)


# ------------------------------------------------------------------ HDF5
def h5_name(f, key):
    if isinstance(key, Phi):
        raise Undecided("joined dataset name")
    if not isinstance(key, str):
        raise Undecided("dataset name %r" % (key,))
    return key


def h5_dataset(ip, f, key):
    """contents of dataset `key` of file/group f when it is not written here"""
    h = getattr(ip, "h5_schema", None)
    if h is not None:
        r = h(ip, f, key)
        if r is not None:
            return r
    n = T.dim("rows(%s)" % text(f.name))
    return A.build((n,), lambda idx: T.var("h5:%s/%s" % (text(f.name), key), idx[0]), "f", False)


def text(n):
    if isinstance(n, str):
        return n
    if isinstance(n, Opq) and n.name == "str":
        return "".join(text(x) for x in n.args)
    return repr(term_key(n))


class H5Err(Exception):
    pass


def h5_get(ip, f, key):
    if isinstance(f, FileV):
        key = h5_name(f, key)
        if key in f.written:
            return f.written[key]
        if "/" in key:
            for part in key.strip("/").split("/"):
                f = h5_get(ip, f, part)
            return f
        cache = f.__dict__.setdefault("cache", {})
        if key not in cache:
            cache[key] = h5_dataset(ip, f, key)
        return cache[key]
    raise Undecided("h5 item")


def h5_keys(ip, f):
    if f.written:
        return list(f.written)
    h = getattr(ip, "h5_keylist", None)
    if h is not None:
        r = h(ip, f)
        if r is not None:
            return list(r)
    return ["colA", "colB", "colC"]


def h5_has(ip, f, key):
    return T.const(int(key in h5_keys(ip, f)))


def h5_write(ip, f, key, v):
    ip.touch(f)
    *path, last = h5_name(f, key).strip("/").split("/")
    for part in path:
        f = f.written.setdefault(part, FileV(text(f.name) + "/" + part, f.mode))
    f.written[last] = v
    ip.h5_writes = getattr(ip, "h5_writes", [])
    ip.h5_writes.append((f, key, v, ip.loc))


def h5_attr(ip, f, name):
    if name == "keys":
        return Prim("keys", lambda ip, a, k: h5_keys(ip, f))
    if name == "items":
        return Prim("items", lambda ip, a, k: [(q, h5_get(ip, f, q)) for q in h5_keys(ip, f)])
    if name == "values":
        return Prim("values", lambda ip, a, k: [h5_get(ip, f, q) for q in h5_keys(ip, f)])
    if name == "create_dataset":

        def cd(ip, a, k):
            v = ga(a, k, 3, "data")
            if v is None and len(a) > 2:
                v = a[2]
            h5_write(ip, f, a[0], v)
            return v

        return Prim("create_dataset", cd)
    if name == "create_group":

        def cg(ip, a, k):
            g = FileV((text(f.name) + "/" + a[0]), f.mode)
            h5_write(ip, f, a[0], g)
            return g

        return Prim("create_group", cg)
    if name in ("close", "flush"):
        return Prim(name, lambda ip, a, k: None)
    if name == "attrs":
        return Opq("attrs", text(f.name))
    if name == "name":
        return text(f.name)
    if name in ("__enter__", "__exit__"):
        return Prim(name, lambda ip, a, k: f)
    if name == "get":
        return Prim("get", lambda ip, a, k: h5_get(ip, f, a[0]))
    raise Undecided("h5 attribute %s" % name)


def h5_file(ip, a, k):
    mode = ga(a, k, 1, "mode", "r")
    if isinstance(mode, str) and mode not in ("r", "r+", "w", "w-", "x", "a"):
        raise PyError("ValueError", "Invalid mode; must be one of r, r+, w, w-, x, a")
    f = FileV(a[0], mode)
    ip.files = getattr(ip, "files", [])
    ip.files.append(f)
    return f


# ------------------------------------------------------------------ small stdlib models
def str_join(ip, a, k):
    if all(isinstance(x, str) for x in a):
        import posixpath

        return posixpath.join(*a) if a else ""
    return Opq("str", *[y for i, x in enumerate(a) for y in ((["/"] if i else []) + [x])])


def os_attr(ip, name):
    if name == "path":
        return os_path(ip)
    if name == "sep":
        return "/"
    if name == "environ":
        return Opq("environ")
    if name in ("makedirs", "remove", "listdir", "getcwd", "mkdir", "rename", "system", "unlink", "getenv", "getpid"):

        def f(ip, a, k):
            ip.effects.append(("os." + name, ip.loc))
            return Opq("os." + name, *a)

        return Prim("os." + name, f)
    return None


def os_path(ip):
    def get(ip, name):
        if name == "join":
            return Prim("os.path.join", str_join)
        if name in ("dirname", "basename", "abspath", "realpath", "expanduser", "normpath"):

            def f(ip, a, k):
                if isinstance(a[0], str):
                    import posixpath

                    if name in ("abspath", "realpath", "expanduser"):
                        return a[0]
                    return getattr(posixpath, name)(a[0])
                return Opq("os.path." + name, *a)

            return Prim("os.path." + name, f)
        if name in ("isfile", "exists", "isdir", "getsize", "split", "splitext"):
            return Prim("os.path." + name, lambda ip, a, k: Opq("os.path." + name, *a))
        return None

    return PrimModule("os.path", get)


def mk_namedtuple(ip, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    else:
        fields = ip.iterate(fields)
    for f in fields:
        if not isinstance(f, str):
            raise Undecided("namedtuple field %r" % (f,))
    if len(set(fields)) != len(fields):
        raise PyError("ValueError", "Encountered duplicate field name")
    d = {}
    dv = k.get("defaults")
    if dv is not None:
        dv = ip.iterate(dv)
        for f, v in zip(fields[len(fields) - len(dv) :], dv):
            d[f] = v
    return NTClass(name, fields, d)


def fn_reduce(ip, a, k):
    f, xs = a[0], ip.iterate(a[1])
    xs = list(xs)
    if len(a) > 2:
        r = a[2]
    else:
        if not xs:
            raise PyError("TypeError", "reduce of empty sequence")
        r = xs.pop(0)
    for x in xs:
        r = ip.call(f, [r, x])
    return r


def ident_deco(ip, a, k):
    return Prim("deco", lambda ip, b, kk: b[0])


def lru(ip, a, k):
    if a and isinstance(a[0], (Func, Prim)):
        return a[0]
    return Prim("deco", lambda ip, b, kk: b[0])


def it_chain(ip, a, k):
    return [y for x in a for y in ip.iterate(x)]


def it_product(ip, a, k):
    import itertools

    rep = int(k.get("repeat", 1))
    return [tuple(x) for x in itertools.product(*[ip.iterate(x) for x in a], repeat=rep)]


def it_acc(ip, a, k):
    xs = ip.iterate(a[0])
    f = a[1] if len(a) > 1 else k.get("func")
    out = []
    r = k.get("initial")
    if r is not None:
        out.append(r)
    import ast

    for x in xs:
        r = x if r is None and not out else (ip.binop(ast.Add(), r, x) if f is None else ip.call(f, [r, x]))
        out.append(r)
    return out


def itertools_attr(ip, name):
    t = {"chain": it_chain, "product": it_product, "accumulate": it_acc}.get(name)
    if t is not None:
        p = Prim("itertools." + name, t)
        return p
    if name in ("combinations", "permutations", "combinations_with_replacement"):
        import itertools

        return Prim(name, lambda ip, a, k: [tuple(x) for x in getattr(itertools, name)(ip.iterate(a[0]), int(a[1]))])
    if name == "count":
        return Prim("count", lambda ip, a, k: Opq("count"))
    if name == "islice":
        return Prim("islice", lambda ip, a, k: ip.iterate(a[0])[slice(*[None if x is None else int(x) for x in a[1:]])])
    if name == "pairwise":

        def pw(ip, a, k):
            xs = ip.iterate(a[0])
            return list(zip(xs[:-1], xs[1:]))

        return Prim("pairwise", pw)
    if name in ("zip_longest", "starmap", "repeat", "cycle", "tee"):
        if name == "starmap":
            return Prim("starmap", lambda ip, a, k: [ip.call(a[0], ip.iterate(x)) for x in ip.iterate(a[1])])
        if name == "repeat":
            return Prim("repeat", lambda ip, a, k: [a[0]] * int(a[1]))
    return None


def operator_attr(ip, name):
    import ast

    ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "pow": ast.Pow, "mod": ast.Mod}
    if name in ops:
        return Prim(name, lambda ip, a, k: ip.binop(ops[name], a[0], a[1]))
    if name == "itemgetter":

        def ig(ip, a, k):
            return Prim("getter", lambda ip, b, kk: ip.getitem(b[0], a[0]) if len(a) == 1 else tuple(ip.getitem(b[0], x) for x in a))

        return Prim("itemgetter", ig)
    if name == "attrgetter":
        return Prim("attrgetter", lambda ip, a, k: Prim("getter", lambda ip, b, kk: ip.getattr(b[0], a[0]) if len(a) == 1 else tuple(ip.getattr(b[0], x) for x in a)))
    return None


def math_attr(ip, name):
    if name in ("pi", "e", "inf", "nan"):
        return np_attr(False)(ip, name)
    m = {"fabs": "abs", "pow": "power", "fsum": "sum"}.get(name, name)
    if name in ("sqrt", "exp", "log", "log10", "log2", "fabs", "floor", "ceil", "pow", "isnan", "isfinite", "isinf", "tanh", "sin", "cos", "log1p", "expm1", "isclose", "prod", "fsum", "erf", "hypot"):
        f = np_attr(False)(ip, m)
        if f is None:
            return None
        if name == "log":

            def lg(ip, a, k):
                r = T.log(P(arr(a[0])))
                if len(a) > 1:
                    r = T.div(r, T.log(P(arr(a[1]))))
                return r

            return Prim("math.log", lg)
        return f
    return None


def deep_copy(ip, a, k):
    def cp(v):
        if isinstance(v, Arr):
            return Arr(v.shape, v.data, v.dtype, v.jax)
        if isinstance(v, list):
            return [cp(x) for x in v]
        if isinstance(v, dict):
            return {q: cp(x) for q, x in v.items()}
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, NT):
            return NT(v.cls, [cp(x) for x in v.vals])
        if isinstance(v, set):
            return set(v)
        return v

    return cp(a[0])


def shallow_copy(ip, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return Arr(v.shape, v.data, v.dtype, v.jax)
    if isinstance(v, (list, dict, set)):
        return type(v)(v)
    return v


# ------------------------------------------------------------------ optimisers
OPTSTATE = NTClass("OptimizerState", ("params", "memory"))


def opt_make(name):
    def f(ip, a, k):
        hyper = tuple(term_key(x) for x in a) + tuple((q, term_key(v)) for q, v in sorted(k.items()))

        def init(ip, b, kk):
            return NT(OPTSTATE, [b[0], T.app("opt0", name, hyper)])

        def update(ip, b, kk):
            i, g, st = b[0], b[1], b[2]
            if not isinstance(st, NT) or st.cls is not OPTSTATE:
                raise PyError("TypeError", "optimizer state expected")
            p, mem = st.vals
            key = (name, hyper, P(arr(i)), term_key(g), term_key(p), P(mem))
            lv = [0]

            def new(x):
                j = lv[0]
                lv[0] += 1
                x = arr(x)
                if isinstance(x, Arr):
                    return A.build(x.shape, lambda idx: T.app("optstep", key, P(j), *[P(q) for q in idx]), "f", True)
                return T.app("optstep", key, P(j))

            return NT(OPTSTATE, [tree_map(new, p), T.app("optmem", key)])

        def params(ip, b, kk):
            return b[0].vals[0]

        return (Prim("opt_init", init), Prim("opt_update", update), Prim("get_params", params))

    return Prim("optimizers." + name, f)


def sp_minimize(ip, a, k):
    h = ip.env_externals.get("scipy.optimize.minimize")
    if h is not None:
        return h(ip, a, k)
    return Opq("minimize", tuple(a), tuple(sorted(k.items(), key=lambda z: z[0])))


def tree_attr(ip, name):
    if name in ("map", "tree_map"):
        return Prim("tree.map", lambda ip, a, k: tree_map(lambda *x: ip.call(a[0], list(x)), *a[1:]))
    if name in ("leaves", "tree_leaves"):
        return Prim("tree.leaves", lambda ip, a, k: leaves(a[0]))
    return None


JAXNP = {}


def jax_attr(ip, name):
    if name == "jit":
        return Prim("jit", j_jit)
    if name in ("vmap", "pmap"):
        return Prim("vmap", j_vmap)
    if name == "grad":
        return Prim("grad", j_grad(False))
    if name == "value_and_grad":
        return Prim("value_and_grad", j_grad(True))
    if name in ("jacfwd", "jacrev", "jacobian"):
        return Prim(name, j_jac)
    if name in ("checkpoint", "remat", "named_call"):
        return Prim(name, j_jit)
    if name in ("Array",):
        return Prim("jax.Array", lambda ip, a, k: a[0])
    if name == "config":
        return Opq("jax.config")
    if name == "device_get" or name == "device_put" or name == "block_until_ready":
        return Prim(name, lambda ip, a, k: a[0])
    return None


def functools_attr(ip, name):
    if name == "partial":
        return Prim("partial", j_partial)
    if name == "reduce":
        return Prim("reduce", fn_reduce)
    if name == "wraps":
        return Prim("wraps", ident_deco)
    if name in ("lru_cache", "cache"):
        return Prim(name, lru)
    return None


def collections_attr(ip, name):
    if name == "OrderedDict":
        d = builtin(ip, "dict")
        return d if d is not None else Prim("dict", b_dict)
    if name == "namedtuple":
        return Prim("namedtuple", mk_namedtuple)
    if name == "defaultdict":

        def dd(ip, a, k):
            return {}

        return Prim("defaultdict", dd)
    return None


def typing_attr(ip, name):
    if name == "NamedTuple":
        return Prim("NamedTuple", lambda ip, a, k: mk_namedtuple(ip, [a[0], [x[0] for x in a[1]]], {}))
    return Opq("typing." + name)


def time_attr(ip, name):
    if name in ("time", "perf_counter", "monotonic"):
        return Prim("time." + name, lambda ip, a, k: T.app("clock", P(bump(ip))))
    return Prim("time." + name, lambda ip, a, k: None)


def bump(ip):
    ip.clock = getattr(ip, "clock", 0) + 1
    return ip.clock


def warnings_attr(ip, name):
    return Prim("warnings." + name, lambda ip, a, k: None)


def h5py_attr(ip, name):
    if name == "File":
        return Prim("h5py.File", h5_file)
    if name in ("Group", "Dataset"):
        return Prim("h5py." + name, lambda ip, a, k: Opq("h5py." + name))
    return None


def scipy_opt_attr(ip, name):
    if name == "minimize":
        return Prim("scipy.optimize.minimize", sp_minimize)
    return None


def nn_mod(ip, name):
    return nn_attr(ip, name)


def opt_attr(ip, name):
    if name in ("adam", "sgd", "adamax", "momentum", "rmsprop", "adagrad"):
        return opt_make(name)
    return None


def itself(table):
    return lambda ip, name: table.get(name)


TABLES = {
    "numpy": lambda: np_attr(False),
    "jax.numpy": lambda: np_attr(True),
    "jax": lambda: jax_attr,
    "jax.random": lambda: random_attr,
    "jax.lax": lambda: lax_attr,
    "jax.nn": lambda: nn_mod,
    "jax.tree_util": lambda: tree_attr,
    "jax.tree": lambda: tree_attr,
    "jax.example_libraries": lambda: itself({}),
    "jax.example_libraries.optimizers": lambda: opt_attr,
    "functools": lambda: functools_attr,
    "collections": lambda: collections_attr,
    "typing": lambda: typing_attr,
    "os": lambda: os_attr,
    "time": lambda: time_attr,
    "warnings": lambda: warnings_attr,
    "math": lambda: math_attr,
    "itertools": lambda: itertools_attr,
    "operator": lambda: operator_attr,
    "copy": lambda: itself({"copy": Prim("copy", shallow_copy), "deepcopy": Prim("deepcopy", deep_copy)}),
    "h5py": lambda: h5py_attr,
    "scipy.optimize": lambda: scipy_opt_attr,
}
LOOSE = ("argparse", "sys", "re", "json", "glob", "subprocess", "pathlib", "importlib", "importlib.metadata", "enum",
         "dataclasses", "contextlib", "abc", "logging", "scipy", "scipy.special", "scipy.stats", "scipy.interpolate",
         "scipy.integrate", "scipy.spatial", "jax.scipy", "jax.scipy.stats", "jax.scipy.special", "jax.ops", "jax.typing",
         "matplotlib", "matplotlib.pyplot", "astropy", "astropy.table", "astropy.cosmology", "pandas", "umachine_pyio",
         "umachine_pyio.load_mock", "mpi4py", "mpi4py.MPI", "dsps", "halotools", "numpy.typing", "concurrent", "concurrent.futures", "types", "inspect", "pickle", "string", "random", "datetime")


def prim_module(ip, name):
    if name == "os.path":
        return os_path(ip)
    if name == "numpy.random":
        return np_random(ip)
    if name == "numpy.linalg":
        return linalg_module(ip, False)
    if name == "jax.numpy.linalg":
        return linalg_module(ip, True)
    t = TABLES.get(name)
    if t is not None:
        return PrimModule(name, t())
    if name in LOOSE:
        return PrimModule(name, lambda ip, n, m=name: loose(ip, m, n), False)
    return None


def loose(ip, m, n):
    if m + "." + n in LOOSE or m + "." + n in TABLES:
        return prim_module(ip, m + "." + n)
    return Opq(m + "." + n)
