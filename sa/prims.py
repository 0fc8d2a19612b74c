"""Models of Python operators, builtins, attributes and items."""

import ast
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError, Sl, ELL
from .terms import Poly, Undecided, P
from .interp import (
    NT,
    ClassV,
    FileV,
    Ragged,
    Record,
    percent,
    printed,
    Func,
    Instance,
    MapSeq,
    ModuleV,
    NTClass,
    Opq,
    Phi,
    Prim,
    RangeV,
    SymSeq,
    hashable,
    merge,
    text_of,
)


class PrimModule(ModuleV):
    def __init__(self, name, table, strict=True):
        ModuleV.__init__(self, name)
        self.table = table
        self.loading = False
        self.strict = strict

    def attr(self, ip, name):
        if name in self.globals:
            return self.globals[name]
        if name == "newaxis":
            return None
        v = self.table(ip, name) if callable(self.table) else self.table.get(name)
        if v is None:
            sub = prim_module(ip, self.name + "." + name)
            if sub is not None:
                v = sub
        if v is None:
            if self.strict:
                raise Undecided("no model for %s.%s" % (self.name, name))
            v = Opq(self.name + "." + name)
        return v


def arr(v):
    """numeric operand: Arr, Poly or number (sequences are converted)"""
    if isinstance(v, (Arr, Poly)) or A.is_num(v):
        return v
    if isinstance(v, (list, tuple, NT, SymSeq, MapSeq)):
        return A.to_array(v, True)
    if isinstance(v, RangeV):
        n = v.length()
        return A.build((n,), lambda idx: P(v.item(idx[0])), "i", False)
    if isinstance(v, Phi):
        raise Undecided("joined value used as a number")
    if isinstance(v, Opq):
        return opq_scalar(v)
    if v is None:
        raise PyError("TypeError", "unsupported operand type: None")
    if isinstance(v, str):
        raise PyError("TypeError", "unsupported operand type: str")
    raise Undecided("number from %r" % (v,))


def term_key(v):
    """a hashable description of any value, usable inside opaque terms"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, (str, bytes, type(None))):
        return repr(v)
    if A.is_num(v):
        return P(v)
    if isinstance(v, Arr):
        return arr_key(v)
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(term_key(x) for x in v)
    if isinstance(v, NT):
        return (v.cls.name,) + tuple(term_key(x) for x in v.vals)
    if isinstance(v, dict):
        return ("dict",) + tuple((repr(k), term_key(x)) for k, x in v.items())
    if isinstance(v, (SymSeq, MapSeq)):
        return term_key(v.sym_to_array(True))
    if isinstance(v, Opq):
        return (v.name,) + tuple(term_key(x) for x in v.args)
    if isinstance(v, Func):
        return "<%s>" % v.qual
    if isinstance(v, Prim):
        return "<%s>" % v.name
    if isinstance(v, Phi):
        return ("phi", v.c, term_key(v.a), term_key(v.b))
    if isinstance(v, Sl):
        return ("slice", term_key(v.start), term_key(v.stop), term_key(v.step))
    if isinstance(v, FileV):
        return ("file", term_key(v.name))
    if isinstance(v, RangeV):
        return ("range", term_key(v.start), term_key(v.stop), term_key(v.step))
    return "<%s>" % type(v).__name__


def arr_key(a):
    """closed description of an array"""

    def rec(k, idx):
        if k == a.ndim:
            return a.get(idx)
        n = a.shape[k]
        if A.unrolled(n):
            return tuple(rec(k + 1, idx + [j]) for j in range(n))
        tmp = T.fresh_idx(P(n), "k")
        b = rec(k + 1, idx + [tmp])
        return close_any(n, tmp, b)

    return rec(0, [])


def close_any(n, tmp, b):
    if isinstance(b, Poly):
        return T.close("lam", P(n), tmp, b)
    return tuple(close_any(n, tmp, x) for x in b)


def opq_scalar(v):
    return T.app("opq:" + v.name, *[term_key(x) for x in v.args])


# ---------------------------------------------------------------- operators
def floordiv(a, b):
    ca, cb = T.cval(a), T.cval(b)
    if ca is not None and cb is not None and cb != 0:
        return T.const(ca // cb)
    if cb is not None and a.isint and T.is_index_expr(a) and cb.denominator == 1:
        return A.divmod_index(a, int(cb))[0]
    if T.is_index_expr(a) and T.is_index_expr(b):
        return A.divmod_index(a, b)[0]
    return T.app("floordiv", a, b, isint=True)


def mod(a, b):
    return T.sub(a, T.mul(b, floordiv(a, b)))


OPS = {
    ast.Add: T.add,
    ast.Sub: T.sub,
    ast.Mult: T.mul,
    ast.Div: T.div,
    ast.Pow: T.power,
    ast.FloorDiv: floordiv,
    ast.Mod: mod,
}


def bitand(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return T.b_and(a, b)
    ca, cb = T.cval(a), T.cval(b)
    if ca is not None and cb is not None:
        return T.const(int(ca) & int(cb))
    return T.app("bitand", a, b, isint=True)


def bitor(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return T.b_or(a, b)
    ca, cb = T.cval(a), T.cval(b)
    if ca is not None and cb is not None:
        return T.const(int(ca) | int(cb))
    return T.app("bitor", a, b, isint=True)


def bitxor(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return T.ite(a, T.b_not(b), b)
    return T.app("bitxor", a, b, isint=True)


OPS[ast.BitAnd] = bitand
OPS[ast.BitOr] = bitor
OPS[ast.BitXor] = bitxor
INTOPS = (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)


def binop(ip, op, a, b):
    if op is ast.MatMult:
        from .prims_np import matmul

        return matmul(ip, arr(a), arr(b))
    pa = isinstance(a, (int, Fraction)) and not isinstance(a, Poly)
    pb = isinstance(b, (int, Fraction)) and not isinstance(b, Poly)
    if pa and pb:
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op is ast.Div:
            if b == 0:
                raise PyError("ZeroDivisionError", "division by zero")
            return Fraction(a) / Fraction(b)
        if op is ast.FloorDiv:
            return a // b
        if op is ast.Mod:
            return a % b
        if op is ast.Pow:
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a**b
            r = T.power(P(a), P(b))
            c = T.cval(r)
            return c if c is not None else r
        if op is ast.BitAnd:
            return a & b
        if op is ast.BitOr:
            return a | b
        if op is ast.BitXor:
            return a ^ b
        if op is ast.LShift:
            return a << b
        if op is ast.RShift:
            return a >> b
    if isinstance(a, str) or isinstance(b, str):
        if op is ast.Add and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op is ast.Mod and isinstance(a, str):
            try:
                return percent(a, b)
            except (TypeError, ValueError, IndexError):
                return a + text_of(b)
        if op is ast.Mult and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("str", a, b)
        raise PyError("TypeError", "unsupported operand types for str")
    sa = isinstance(a, (list, tuple, NT))
    sb = isinstance(b, (list, tuple, NT))
    if op is ast.Add and sa and sb:
        if isinstance(a, list) != isinstance(b, list):
            raise PyError("TypeError", "can only concatenate like sequences")
        x = list(a.vals if isinstance(a, NT) else a)
        y = list(b.vals if isinstance(b, NT) else b)
        return x + y if isinstance(a, list) else tuple(x + y)
    if op is ast.Mult and (sa and isinstance(b, int) or sb and isinstance(a, int)):
        s, n = (a, b) if sa else (b, a)
        if isinstance(s, NT):
            s = s.vals
        return s * n
    if op is ast.Mult and isinstance(a, list) and len(a) == 1 and isinstance(b, Poly):
        return MapSeq(b, lambda k: a[0])
    if isinstance(a, set) and isinstance(b, set):
        if op is ast.Sub:
            return a - b
        if op is ast.BitAnd:
            return a & b
        if op is ast.BitOr:
            return a | b
    if isinstance(a, dict) and isinstance(b, dict) and op is ast.BitOr:
        d = dict(a)
        d.update(b)
        return d
    if a is None or b is None:
        raise PyError("TypeError", "unsupported operand type(s): NoneType")
    if sa and not isinstance(b, Arr) or sb and not isinstance(a, Arr):
        raise PyError("TypeError", "unsupported operand types: sequence and number")
    f = OPS.get(op)
    if f is None:
        raise Undecided("operator %s" % op.__name__)
    x, y = arr(a), arr(b)
    dt = None
    if op is ast.Div:
        dt = "f"
    r = A.emap(f, x, y, dtype=dt)
    if isinstance(r, Poly):
        c = T.cval(r)
        if c is not None and c.denominator == 1 and op in INTOPS and A.dtype_of(a) == "i" and A.dtype_of(b) == "i":
            return int(c)
    return r


def unop(ip, op, v):
    if op is ast.Not:
        c = ip.truth(v)
        cv = T.cval(c)
        return (not cv) if cv is not None else T.b_not(c)
    if isinstance(v, (int, Fraction)) and not isinstance(v, Poly):
        if op is ast.USub:
            return -v
        if op is ast.UAdd:
            return +v
        if op is ast.Invert:
            return (not v) if isinstance(v, bool) else ~v
    x = arr(v)
    if op is ast.USub:
        return A.emap(T.neg, x)
    if op is ast.UAdd:
        return x
    if op is ast.Invert:
        return A.emap(lambda p: T.b_not(p) if T.is_bool(p) else T.sub(T.neg(p), T.ONE), x)
    raise Undecided("unary operator")


def py_equal(ip, a, b):
    """truth Poly of a == b for non-array values"""
    if a is b:
        return T.ONE
    if isinstance(a, NT):
        a = a.vals
    if isinstance(b, NT):
        b = b.vals
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return T.ZERO
        r = T.ONE
        for x, y in zip(a, b):
            r = T.b_and(r, ip.truth(compare(ip, ast.Eq, x, y)))
        return r
    if A.is_num(a) and A.is_num(b):
        return T.eq(P(a), P(b))
    if isinstance(a, (Opq, Phi)) or isinstance(b, (Opq, Phi)):
        raise Undecided("comparison of %r and %r" % (a, b))
    if isinstance(a, (str, set, type(None), bytes)) or isinstance(b, (str, set, type(None), bytes)):
        return T.const(int(type(a) is type(b) and a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return T.ZERO
        r = T.ONE
        for k in a:
            r = T.b_and(r, ip.truth(compare(ip, ast.Eq, a[k], b[k])))
        return r
    if isinstance(a, Prim) and isinstance(b, Prim):
        return T.const(int(a.name == b.name))
    return T.ZERO


def pybool(p):
    c = T.cval(p)
    return bool(c) if c is not None else p


def compare(ip, op, a, b):
    if isinstance(a, Phi):
        a = ip.dephi(a)
    if isinstance(b, Phi):
        b = ip.dephi(b)
    if isinstance(a, Phi):
        return ip.merge_calls(a.c, lambda: compare(ip, op, a.a, b), lambda: compare(ip, op, a.b, b))
    if isinstance(b, Phi):
        return ip.merge_calls(b.c, lambda: compare(ip, op, a, b.a), lambda: compare(ip, op, a, b.b))
    if op in (ast.Is, ast.IsNot):
        if a is None or b is None:
            r = a is b
        elif isinstance(a, bool) or isinstance(b, bool):
            r = a is b
        else:
            r = a is b
        return r if op is ast.Is else not r
    if op in (ast.In, ast.NotIn):
        r = contains(ip, a, b)
        return pybool(r if op is ast.In else T.b_not(r))
    anyarr = isinstance(a, Arr) or isinstance(b, Arr)
    if not anyarr and not (A.is_num(a) and A.is_num(b)):
        if op is ast.Eq:
            return pybool(py_equal(ip, a, b))
        if op is ast.NotEq:
            return pybool(T.b_not(py_equal(ip, a, b)))
        if isinstance(a, (str, set, list, tuple)) and type(a) is type(b):
            if isinstance(a, str) or isinstance(a, set):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        x, y = arr(a), arr(b)
    else:
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op is ast.Eq:
                return False
            if op is ast.NotEq:
                return True
        x, y = arr(a), arr(b)
    f = {
        ast.Eq: T.eq,
        ast.NotEq: lambda p, q: T.b_not(T.eq(p, q)),
        ast.Lt: T.lt,
        ast.LtE: T.le,
        ast.Gt: lambda p, q: T.lt(q, p),
        ast.GtE: lambda p, q: T.le(q, p),
    }[op]
    r = A.emap(f, x, y, dtype="b")
    if isinstance(r, Poly) and not anyarr:
        return pybool(r)
    return r


def contains(ip, a, b):
    if isinstance(b, str):
        if isinstance(a, str):
            return T.const(int(a in b))
        raise Undecided("substring test")
    if isinstance(b, dict):
        return T.const(int(hashable(a) in b))
    if isinstance(b, FileV):
        from .prims_ext import h5_has

        return h5_has(ip, b, a)
    if isinstance(b, Arr):
        e = A.emap(T.eq, b, arr(a), dtype="b")
        return P(A.reduce(e, None, "redany"))
    r = T.ZERO
    for x in ip.iterate(b):
        r = T.b_or(r, ip.truth(compare(ip, ast.Eq, a, x)))
    return r


# ---------------------------------------------------------------- items
def get_item(ip, o, i):
    if isinstance(o, Opq) and o.name in ("np.r_", "np.c_"):
        from .prims_np import cat_index

        return cat_index(o, i)
    from .interp import fix_index

    if isinstance(o, (list, tuple, NT)):
        seq = o.vals if isinstance(o, NT) else o
        if isinstance(i, Sl):
            s = []
            for x in (i.start, i.stop, i.step):
                if x is None:
                    s.append(None)
                else:
                    k = A.intval(x)
                    if k is None:
                        return get_item(ip, A.to_array(list(seq), False), i)
                    s.append(k)
            return seq[slice(*s)]
        k = A.intval(i) if A.is_num(i) else None
        if k is not None:
            if isinstance(i, (Fraction,)) and not isinstance(i, int):
                raise PyError("TypeError", "indices must be integers")
            if not -len(seq) <= k < len(seq):
                raise PyError("IndexError", "index %d out of range (length %d)" % (k, len(seq)))
            return seq[k]
        if isinstance(i, Poly):
            r = seq[-1]
            for j in range(len(seq) - 2, -1, -1):
                r = merge(T.eq(i, T.const(j)), seq[j], r)
            return r
        raise PyError("TypeError", "list indices must be integers or slices")
    if isinstance(o, (SymSeq, MapSeq)):
        if isinstance(i, Sl):
            return get_item(ip, o.sym_to_array(False), i)
        k = A.intval(i)
        if k is not None and k < 0:
            return o.item(T.add(P(o.n), T.const(k)))
        return o.item(i)
    if isinstance(o, dict):
        k = hashable(i)
        if isinstance(k, Opq):
            return Opq("item", o, k)
        if k not in o:
            raise PyError("KeyError", repr(k))
        return o[k]
    if isinstance(o, str):
        if isinstance(i, Sl):
            return o[slice(*[None if x is None else A.intval(x) for x in (i.start, i.stop, i.step)])]
        return o[A.intval(i)]
    if isinstance(o, Arr):
        if isinstance(i, str):
            raise Undecided("field of a structured array")
        i = fix_index(ip, i)
        if not o.jax:
            return A.view(o, i)
        return A.getitem(o, i)[0]
    if isinstance(o, RangeV):
        if isinstance(i, Sl):
            n = o.length()
            s, st, ln = A.slice_bounds(i, n)
            return RangeV(o.item(s), o.item(A.dadd(s, A.dmul(st, ln))), binop(ip, ast.Mult, o.step, st))
        return o.item(A.norm_index(i, o.length()))
    if isinstance(o, Poly) or A.is_num(o):
        its = i if isinstance(i, tuple) else (i,)
        if all(x is None or x is ELL for x in its):
            n = sum(1 for x in its if x is None)
            return A.scalar_result((1,) * n, lambda idx: P(o), A.dtype_of(o))
        if isinstance(o, Poly):
            raise PyError("IndexError", "invalid index to scalar variable")
        raise PyError("TypeError", "number is not subscriptable")
    if isinstance(o, FileV):
        from .prims_ext import h5_get

        return h5_get(ip, o, i)
    if isinstance(o, Opq):
        return Opq(o.name + "[]", o, i)
    if isinstance(o, AtIndexer):
        return AtRef(o.a, fix_index(ip, i))
    if isinstance(o, Instance):
        m = ip.class_attr(o.cls, "__getitem__")
        if m is not None:
            return ip.call(m, [o, i], {})
    raise PyError("TypeError", "%r is not subscriptable" % (o,))


class AtIndexer:
    def __init__(self, a):
        self.a = a


class AtRef:
    def __init__(self, a, i):
        self.a, self.i = a, i


# ---------------------------------------------------------------- attributes
def method(name, f):
    return Prim(name, f)


def get_attr(ip, o, name):
    from . import prims_np as N

    if isinstance(o, Record) and name in ("size", "shape", "ndim"):
        return {"size": T.P(o.n), "shape": (o.n,), "ndim": 1}[name]
    if isinstance(o, Ragged):
        if name == "attrs":
            return o.named
        if name in ("size", "shape", "ndim"):
            return {"size": len(o), "shape": (len(o),), "ndim": 1}[name]
    if isinstance(o, ModuleV):
        return ip.module_attr(o, name)
    if isinstance(o, NT):
        if name in o.cls.fields:
            return o.vals[o.cls.fields.index(name)]
        if name == "_fields":
            return o.cls.fields
        if name == "_asdict":
            return method("_asdict", lambda ip, a, k: dict(zip(o.cls.fields, o.vals)))
        if name == "_make":
            return get_attr(ip, o.cls, "_make")
        if name == "_replace":

            def rep(ip, a, k):
                for x in k:
                    if x not in o.cls.fields:
                        raise PyError("ValueError", "unexpected field %s" % x)
                return NT(o.cls, [k.get(f, v) for f, v in zip(o.cls.fields, o.vals)])

            return method("_replace", rep)
        if name == "index":
            return get_attr(ip, tuple(o.vals), name)
        if name == "count":
            return get_attr(ip, tuple(o.vals), name)
        if name == "__class__":
            return o.cls
        ms = getattr(o.cls, "methods", {})
        if name in ms:
            return bound(ms[name], o)
        raise PyError("AttributeError", "%s has no field %s" % (o.cls.name, name))
    if isinstance(o, NTClass):
        if name == "_make":

            def mk(ip, a, k):
                v = ip.iterate(a[0])
                return NT(o, v)

            return method("_make", mk)
        if name == "_fields":
            return o.fields
        if name == "__name__":
            return o.name
        if name == "_field_defaults":
            return dict(o.defaults)
        if name == "_replace":
            return method("_replace", lambda ip, a, k: ip.call(get_attr(ip, a[0], "_replace"), a[1:], k))
        if name == "_asdict":
            return method("_asdict", lambda ip, a, k: ip.call(get_attr(ip, a[0], "_asdict"), a[1:], k))
        raise PyError("AttributeError", "class %s has no attribute %s" % (o.name, name))
    if isinstance(o, (Arr, Poly)) or (A.is_num(o) and not isinstance(o, bool)):
        r = N.array_attr(ip, o, name)
        if r is None:
            raise PyError("AttributeError", "array has no attribute %s" % name)
        return r
    if isinstance(o, dict):
        return dict_attr(ip, o, name)
    if isinstance(o, list):
        return list_attr(ip, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return method("index", lambda ip, a, k: seq_index(ip, o, a[0]))
        if name == "count":
            return method("count", lambda ip, a, k: sum(1 for x in o if pybool(py_equal(ip, x, a[0])) is True))
        raise PyError("AttributeError", "tuple has no attribute %s" % name)
    if isinstance(o, str):
        return str_attr(ip, o, name)
    if isinstance(o, (set, frozenset)):
        return set_attr(ip, o, name)
    if isinstance(o, (Func, Prim)):
        if name in getattr(o, "attrs", {}):
            return o.attrs[name]
        if name == "__name__":
            return o.name
        if name in ("__doc__",):
            return None
        if name == "__wrapped__":
            return o
        if isinstance(o, Prim):
            sub = N.prim_attr(ip, o, name)
            if sub is not None:
                return sub
        raise PyError("AttributeError", "function has no attribute %s" % name)
    if isinstance(o, AtRef):
        return at_method(ip, o, name)
    if isinstance(o, Instance):
        if name in o.attrs:
            return o.attrs[name]
        v = ip.class_attr(o.cls, name)
        if v is None:
            raise PyError("AttributeError", "object has no attribute %s" % name)
        if isinstance(v, Func):
            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in v.node.decorator_list):
                return v
            return bound(v, o)
        if isinstance(v, Opq) and v.name == "property":
            return ip.call(v.args[0], [o], {})
        return v
    if isinstance(o, ClassV):
        v = ip.class_attr(o, name)
        if v is not None:
            return v
        if name == "__name__":
            return o.name
        raise PyError("AttributeError", name)
    if isinstance(o, FileV):
        from .prims_ext import h5_attr

        return h5_attr(ip, o, name)
    if isinstance(o, (SymSeq, MapSeq)):
        if name == "append":
            raise Undecided("append to a symbolic sequence")
    if isinstance(o, Opq):
        h = ip.env_externals.get(o.name)
        if h is not None:
            r = h(ip, o, name)
            if r is not None:
                return r
        return Opq(o.name + "." + name, o)
    if o is None:
        raise PyError("AttributeError", "NoneType has no attribute %s" % name)
    raise Undecided("attribute %s of %r" % (name, o))


def bound(f, o):
    return Prim(f.name, lambda ip, a, k: ip.call(f, [o] + a, k))


def at_method(ip, o, name):
    ops = {
        "set": None,
        "add": T.add,
        "multiply": T.mul,
        "mul": T.mul,
        "divide": T.div,
        "subtract": T.sub,
        "max": T.tmax,
        "min": T.tmin,
        "power": T.power,
    }
    if name == "get":
        return Prim("at.get", lambda ip, a, k: A.getitem(o.a, o.i)[0])
    if name == "apply":

        def app(ip, a, k):
            cur = A.getitem(o.a, o.i)[0]
            return A.updated(o.a, o.i, ip.call(a[0], [cur], {}))

        return Prim("at.apply", app)
    if name not in ops:
        raise Undecided("array.at[].%s" % name)

    def run(ip, a, k):
        v = arr(a[0])
        r = A.updated(o.a, o.i, v, ops[name])
        r.jax = True
        return r

    return Prim("at." + name, run)


def seq_index(ip, seq, x):
    for k, y in enumerate(seq):
        r = pybool(py_equal(ip, x, y))
        if r is True:
            return k
        if r is not False:
            raise Undecided("symbolic index search")
    raise PyError("ValueError", "not in sequence")


def dict_attr(ip, o, name):
    if name == "keys":
        return method("keys", lambda ip, a, k: list(o.keys()))
    if name == "values":
        return method("values", lambda ip, a, k: list(o.values()))
    if name == "items":
        return method("items", lambda ip, a, k: list(o.items()))
    if name == "get":
        return method("get", lambda ip, a, k: o.get(hashable(a[0]), a[1] if len(a) > 1 else k.get("default")))
    if name == "copy":
        return method("copy", lambda ip, a, k: dict(o))
    if name == "pop":

        def pop(ip, a, k):
            ip.touch(o)
            kk = hashable(a[0])
            if kk in o:
                return o.pop(kk)
            if len(a) > 1:
                return a[1]
            raise PyError("KeyError", repr(kk))

        return method("pop", pop)
    if name == "update":

        def upd(ip, a, k):
            ip.touch(o)
            if a:
                if isinstance(a[0], dict):
                    o.update(a[0])
                else:
                    for pr in ip.iterate(a[0]):
                        kk, v = ip.iterate(pr)
                        o[hashable(kk)] = v
            o.update(k)

        return method("update", upd)
    if name == "setdefault":

        def sd(ip, a, k):
            kk = hashable(a[0])
            if kk not in o:
                ip.touch(o)
                o[kk] = a[1] if len(a) > 1 else None
            return o[kk]

        return method("setdefault", sd)
    if name == "clear":

        def cl(ip, a, k):
            ip.touch(o)
            o.clear()

        return method("clear", cl)
    if name == "popitem":

        def pi(ip, a, k):
            ip.touch(o)
            return o.popitem()

        return method("popitem", pi)
    if name == "fromkeys":
        return method("fromkeys", lambda ip, a, k: {hashable(x): (a[1] if len(a) > 1 else None) for x in ip.iterate(a[0])})
    if name == "move_to_end":

        def mte(ip, a, k):
            ip.touch(o)
            v = o.pop(hashable(a[0]))
            o[hashable(a[0])] = v

        return method("move_to_end", mte)
    raise PyError("AttributeError", "dict has no attribute %s" % name)


def list_attr(ip, o, name):
    def mut(f):
        def run(ip, a, k):
            ip.touch(o)
            return f(ip, a, k)

        return method(name, run)

    if name == "append":
        return mut(lambda ip, a, k: o.append(a[0]))
    if name == "extend":
        return mut(lambda ip, a, k: o.extend(ip.iterate(a[0])))
    if name == "insert":
        return mut(lambda ip, a, k: o.insert(A.intval(a[0]), a[1]))
    if name == "pop":

        def pop(ip, a, k):
            i = A.intval(a[0]) if a else -1
            if not -len(o) <= i < len(o):
                raise PyError("IndexError", "pop from list")
            return o.pop(i)

        return mut(pop)
    if name == "remove":
        return mut(lambda ip, a, k: o.pop(seq_index(ip, o, a[0])))
    if name == "reverse":
        return mut(lambda ip, a, k: o.reverse())
    if name == "clear":
        return mut(lambda ip, a, k: o.clear())
    if name == "sort":

        def srt(ip, a, k):
            o[:] = b_sorted(ip, [o], k)

        return mut(srt)
    if name == "index":
        return method("index", lambda ip, a, k: seq_index(ip, o, a[0]))
    if name == "count":
        return method("count", lambda ip, a, k: sum(1 for x in o if pybool(py_equal(ip, x, a[0])) is True))
    if name == "copy":
        return method("copy", lambda ip, a, k: list(o))
    raise PyError("AttributeError", "list has no attribute %s" % name)


def str_attr(ip, o, name):
    pure = (
        "format join split strip lstrip rstrip startswith endswith upper lower replace find title "
        "capitalize zfill rsplit count index isdigit ljust rjust center encode partition rpartition splitlines removeprefix removesuffix"
    ).split()
    if name in pure:

        def run(ip, a, k):
            aa = []
            for x in a:
                if name == "join":
                    x = [y if isinstance(y, str) else text_of(y) for y in ip.iterate(x)]
                elif isinstance(x, (Poly, Fraction, Arr)):
                    x = printed(x) if name == "format" else text_of(x)
                elif isinstance(x, Opq):
                    if name == "format":
                        x = "{%s}" % x.name
                    else:
                        return Opq("str." + name, o, *a)
                aa.append(x)
            kk = {n: (printed(v) if name == "format" else text_of(v) if isinstance(v, (Poly, Fraction)) else v) for n, v in k.items()}
            try:
                return getattr(o, name)(*aa, **kk)
            except ValueError as e:
                if name == "format":
                    return o + "".join(text_of(x) for x in aa)
                raise PyError("ValueError", str(e))
            except (TypeError, IndexError, KeyError) as e:
                raise PyError(type(e).__name__, str(e))

        return method("str." + name, run)
    raise PyError("AttributeError", "str has no attribute %s" % name)


def set_attr(ip, o, name):
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference", "isdisjoint"):
        return method(name, lambda ip, a, k: getattr(set(o), name)(*[set(ip.iterate(x)) for x in a]))
    if name == "add":
        return method(name, lambda ip, a, k: o.add(hashable(a[0])))
    if name == "copy":
        return method(name, lambda ip, a, k: set(o))
    raise PyError("AttributeError", "set has no attribute %s" % name)


# ---------------------------------------------------------------- builtins
def b_len(ip, a, k):
    o = a[0]
    if isinstance(o, Phi):
        o = ip.dephi(o)
    if isinstance(o, NT):
        return len(o.vals)
    if isinstance(o, Record):
        return o.n
    if isinstance(o, (list, tuple, dict, str, set)):
        return len(o)
    if isinstance(o, Arr):
        if o.ndim == 0:
            raise PyError("TypeError", "len() of unsized object")
        return o.shape[0]
    if isinstance(o, RangeV):
        return o.length()
    if isinstance(o, (SymSeq, MapSeq)):
        return o.n
    if isinstance(o, FileV):
        return b_len(ip, [h5_keys(ip, o)], {})
    if A.is_num(o) or o is None:
        raise PyError("TypeError", "object has no len()")
    raise Undecided("len of %r" % (o,))


def b_range(ip, a, k):
    a = [A.intval(x) if A.intval(x) is not None else x for x in a]
    for x in a:
        if isinstance(x, Fraction):
            raise PyError("TypeError", "range needs integers")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


def b_zip(ip, a, k):
    prs = [ip.seq(x) for x in a]
    if all(isinstance(n, int) for n, f in prs):
        n = min([n for n, f in prs], default=0)
        return [tuple(f(j) for _, f in prs) for j in range(n)]
    n = prs[0][0]
    for m, f in prs[1:]:
        if not A.same_dim(m, n):
            raise Undecided("zip of sequences of different symbolic lengths")
    return MapSeq(n, lambda j: tuple(f(j) for _, f in prs))


def b_enumerate(ip, a, k):
    n, f = ip.seq(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)

    def it(j):
        i = binop(ip, ast.Add, st, j) if not (isinstance(st, int) and st == 0) else j
        return (i, f(j))

    if isinstance(n, int):
        return [it(j) for j in range(n)]
    return MapSeq(n, it)


def b_map(ip, a, k):
    fn = a[0]
    if len(a) > 2:
        z = b_zip(ip, a[1:], {})
        n, f = ip.seq(z)
        g = lambda j: ip.call(fn, list(f(j)))
    else:
        n, f = ip.seq(a[1])
        g = lambda j: ip.call(fn, [f(j)])
    if isinstance(n, int):
        return [g(j) for j in range(n)]
    return MapSeq(n, g)


def b_list(ip, a, k):
    if not a:
        return []
    o = a[0]
    if isinstance(o, FileV):
        o = h5_keys(ip, o)
    if isinstance(o, (SymSeq, MapSeq)):
        return o
    if isinstance(o, (Arr, RangeV)):
        n, f = ip.seq(o)
        if not isinstance(n, int):
            return MapSeq(n, f)
        return [f(j) for j in range(n)]
    return ip.iterate(o)


def b_tuple(ip, a, k):
    r = b_list(ip, a, k)
    return tuple(r) if isinstance(r, list) else r


def b_dict(ip, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for pr in ip.iterate(a[0]):
                kk, v = ip.iterate(pr)
                d[hashable(kk)] = v
    d.update(k)
    return d


def b_sum(ip, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    n, f = ip.seq(a[0])
    if isinstance(n, int):
        r = start
        for j in range(n):
            r = binop(ip, ast.Add, r, f(j))
        return r
    arrv = A.to_array(a[0], True) if not isinstance(a[0], Arr) else a[0]
    return binop(ip, ast.Add, start, A.reduce(arrv, 0, "sum"))


def minmax(which):
    def run(ip, a, k):
        vals = a
        if len(a) == 1:
            n, f = ip.seq(a[0])
            if not isinstance(n, int):
                x = a[0] if isinstance(a[0], Arr) else A.to_array(a[0], True)
                return A.reduce(x, 0, "redmax" if which == "max" else "redmin")
            vals = [f(j) for j in range(n)]
            if not vals:
                if "default" in k:
                    return k["default"]
                raise PyError("ValueError", "%s() of an empty sequence" % which)
        key = k.get("key")
        if key is not None:
            ks = [ip.call(key, [v]) for v in vals]
        else:
            ks = vals
        if all(isinstance(v, str) for v in ks) or all(isinstance(v, (int, Fraction)) for v in ks):
            f = max if which == "max" else min
            kk = f(ks)
            return vals[ks.index(kk)]
        if all(isinstance(v, Poly) and T.is_index_expr(v) or isinstance(v, int) for v in ks):
            # dimensions
            best = 0
            for j in range(1, len(ks)):
                d = T.sub(P(ks[j]), P(ks[best]))
                s = T.sign_lin(d)
                if s is None:
                    break
                if which == "max" and s in (">0",) or which == "min" and s in ("<0",):
                    best = j
            else:
                return vals[best]
        r, kr = vals[0], P(ks[0])
        for v, kv in zip(vals[1:], ks[1:]):
            kv = P(kv)
            c = T.lt(kr, kv) if which == "max" else T.lt(kv, kr)
            r = merge(c, v, r)
            kr = T.ite(c, kv, kr)
        return r

    return run


def b_abs(ip, a, k):
    v = a[0]
    if isinstance(v, (int, Fraction)) and not isinstance(v, Poly):
        return abs(v)
    return A.emap(T.tabs, arr(v))


def b_sorted(ip, a, k):
    vals = ip.iterate(a[0])
    key = k.get("key")
    ks = [ip.call(key, [v]) for v in vals] if key is not None else vals
    conv = []
    for x in ks:
        if isinstance(x, Poly):
            c = T.cval(x)
            if c is None:
                raise Undecided("sorting symbolic values")
            x = c
        conv.append(x)
    order = sorted(range(len(vals)), key=lambda j: conv[j], reverse=bool(k.get("reverse", False)))
    return [vals[j] for j in order]


def trunc(p):
    c = T.cval(p)
    if c is not None:
        return T.const(int(c))
    if p.isint:
        return p
    return T.app("trunc", p, isint=True)


def b_int(ip, a, k):
    v = a[0] if a else 0
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyError("ValueError", "invalid literal for int()")
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, Arr):
        v = v.get([0] * v.ndim)
    r = trunc(P(arr(v)))
    c = A.intval(r)
    return c if c is not None else r


def b_float(ip, a, k):
    v = a[0] if a else 0
    if isinstance(v, str):
        if v in ("inf", "+inf"):
            return T.INF
        if v == "nan":
            return T.NAN
        if v == "-inf":
            return T.neg(T.INF)
        return Fraction(v)
    if isinstance(v, (bool, int, Fraction)):
        return Fraction(int(v)) if isinstance(v, bool) else Fraction(v)
    if isinstance(v, Arr):
        v = v.get([0] * v.ndim)
    return P(arr(v))


def b_bool(ip, a, k):
    return pybool(ip.truth(a[0])) if a else False


def b_isinstance(ip, a, k):
    o, c = a
    cs = c if isinstance(c, tuple) else (c,)
    for x in cs:
        n = getattr(x, "name", None)
        if isinstance(x, NTClass):
            if isinstance(o, NT) and o.cls is x:
                return True
            continue
        if isinstance(x, ClassV):
            if isinstance(o, Instance) and o.cls is x:
                return True
            continue
        if n == "int" and isinstance(o, int):
            return True
        if n == "float" and isinstance(o, Fraction):
            return True
        if n == "bool" and isinstance(o, bool):
            return True
        if n == "str" and isinstance(o, str):
            return True
        if n == "list" and isinstance(o, list):
            return True
        if n == "tuple" and isinstance(o, (tuple, NT)):
            return True
        if n == "dict" and isinstance(o, dict):
            return True
        if n in ("ndarray", "Array") and isinstance(o, (Arr,)):
            if (n == "Array") == o.jax:
                return True
        if n == "Array" and isinstance(o, Poly):
            return True
    return False


def b_any(ip, a, k):
    r = T.ZERO
    n, f = ip.seq(a[0])
    if not isinstance(n, int):
        return A.reduce(arr(a[0]), None, "redany")
    for j in range(n):
        r = T.b_or(r, ip.truth(f(j)))
    return pybool(r)


def b_all(ip, a, k):
    r = T.ONE
    n, f = ip.seq(a[0])
    if not isinstance(n, int):
        e = A.emap(T.b_not, arr(a[0]), dtype="b")
        return T.b_not(P(A.reduce(e, None, "redany")))
    for j in range(n):
        r = T.b_and(r, ip.truth(f(j)))
    return pybool(r)


def b_getattr(ip, a, k):
    try:
        return ip.getattr(a[0], a[1])
    except PyError as e:
        if len(a) > 2 and e.kind == "AttributeError":
            return a[2]
        raise


def b_hasattr(ip, a, k):
    try:
        ip.getattr(a[0], a[1])
        return True
    except PyError:
        return False


def b_round(ip, a, k):
    v = a[0]
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if isinstance(v, (int, Fraction)) and not isinstance(v, Poly):
        return round(v) if nd is None else round(Fraction(v), nd)
    return T.app("round", P(arr(v)), P(nd or 0), isint=nd is None)


def b_reversed(ip, a, k):
    n, f = ip.seq(a[0])
    if isinstance(n, int):
        return [f(j) for j in range(n - 1, -1, -1)]
    return MapSeq(n, lambda j: f(T.sub(T.sub(P(n), T.ONE), P(j))))


def b_filter(ip, a, k):
    out = []
    for v in ip.iterate(a[1]):
        c = ip.truth(ip.call(a[0], [v]) if a[0] is not None else v)
        cv = T.cval(c)
        if cv is None:
            raise Undecided("symbolic filter")
        if cv:
            out.append(v)
    return out


def b_type(ip, a, k):
    o = a[0]
    if isinstance(o, NT):
        return o.cls
    if isinstance(o, Instance):
        return o.cls
    for t, n in ((bool, "bool"), (int, "int"), (Fraction, "float"), (str, "str"), (list, "list"), (tuple, "tuple"), (dict, "dict")):
        if isinstance(o, t):
            return builtin(ip, n)
    return Opq("type", o)


def b_next(ip, a, k):
    n, f = ip.seq(a[0])
    if n == 0:
        if len(a) > 1:
            return a[1]
        raise PyError("StopIteration")
    return f(0)


BUILTINS = {
    "len": b_len,
    "range": b_range,
    "zip": b_zip,
    "enumerate": b_enumerate,
    "map": b_map,
    "filter": b_filter,
    "list": b_list,
    "tuple": b_tuple,
    "dict": b_dict,
    "set": lambda ip, a, k: set(hashable(x) for x in ip.iterate(a[0])) if a else set(),
    "frozenset": lambda ip, a, k: set(hashable(x) for x in ip.iterate(a[0])) if a else set(),
    "sum": b_sum,
    "min": minmax("min"),
    "max": minmax("max"),
    "abs": b_abs,
    "sorted": b_sorted,
    "reversed": b_reversed,
    "int": b_int,
    "float": b_float,
    "bool": b_bool,
    "str": lambda ip, a, k: (a[0] if isinstance(a[0], str) else text_of(a[0])) if a else "",
    "repr": lambda ip, a, k: text_of(a[0]),
    "print": lambda ip, a, k: None,
    "isinstance": b_isinstance,
    "issubclass": lambda ip, a, k: a[0] is a[1],
    "any": b_any,
    "all": b_all,
    "getattr": b_getattr,
    "hasattr": b_hasattr,
    "setattr": lambda ip, a, k: ip.setattr(a[0], a[1], a[2]),
    "callable": lambda ip, a, k: isinstance(a[0], (Func, Prim, NTClass, ClassV)),
    "round": b_round,
    "type": b_type,
    "iter": lambda ip, a, k: a[0],
    "next": b_next,
    "id": lambda ip, a, k: id(a[0]),
    "pow": lambda ip, a, k: binop(ip, ast.Pow, a[0], a[1]),
    "divmod": lambda ip, a, k: (binop(ip, ast.FloorDiv, a[0], a[1]), binop(ip, ast.Mod, a[0], a[1])),
    "slice": lambda ip, a, k: Sl(*(a if len(a) == 3 else ([None, a[0], None] if len(a) == 1 else [a[0], a[1], None]))),
    "staticmethod": lambda ip, a, k: a[0],
    "classmethod": lambda ip, a, k: a[0],
    "property": lambda ip, a, k: Opq("property", a[0]),
    "locals": lambda ip, a, k: {},
    "globals": lambda ip, a, k: {},
    "hash": lambda ip, a, k: Opq("hash"),
    "open": lambda ip, a, k: Opq("file", *a),
    "object": lambda ip, a, k: Opq("object"),
    "vars": lambda ip, a, k: Opq("vars"),
    "format": lambda ip, a, k: format(printed(a[0]), *a[1:2]),
    "complex": lambda ip, a, k: Opq("complex"),
    "input": lambda ip, a, k: Opq("input"),
}
_bcache = {}
EXC = set(
    "Exception BaseException ValueError TypeError KeyError IndexError AttributeError ImportError ModuleNotFoundError "
    "NotImplementedError RuntimeError AssertionError OSError IOError FileNotFoundError StopIteration ArithmeticError "
    "ZeroDivisionError LookupError FloatingPointError OverflowError NameError UserWarning Warning DeprecationWarning".split()
)


def builtin(ip, n):
    p = _bcache.get(n)
    if p is None:
        f = BUILTINS.get(n)
        if f is not None:
            p = Prim(n, f)
        elif n in EXC:
            p = Prim(n, lambda ip, a, k: Opq("exception:" + n, *a))
        elif n == "Ellipsis":
            return ELL
        elif n == "NotImplemented":
            return Opq(n)
        else:
            return None
        _bcache[n] = p
    return p


def h5_keys(ip, f):
    from .prims_ext import h5_keys as g

    return g(ip, f)


def h5_write(ip, f, key, v):
    from .prims_ext import h5_write as g

    return g(ip, f, key, v)


def prim_module(ip, name):
    from .prims_ext import prim_module as g

    return g(ip, name)
