"""Forward value-numbering of Python source.

Every function reachable from an analysed entry point is read from its current source and
its statements are given abstract values (normal-form terms).  Branches on undetermined
conditions are joined with gated (if-then-else) value numbers, so there is one forward
pass and no enumeration of paths; nothing of the analysed package is imported or executed.
"""

import ast
import os
from fractions import Fraction

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError, Sl, ELL
from .terms import Poly, Undecided, P

REPO = os.environ.get("SA_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
LAZY_PACKAGES = ("diffsky",)  # package initialisers that only re-export; submodules are read on demand
SOURCE_ROOTS = {"diffstar": REPO, "diffmah": SITE, "diffsky": SITE}


# ------------------------------------------------------------------- values
class ModuleV:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.globals = {}
        self.loading = True

    def __repr__(self):
        return "<module %s>" % self.name


class Frame:
    __slots__ = ("vars", "parent", "module", "globals_decl", "nonlocals")

    def __init__(self, parent, module):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_decl = ()
        self.nonlocals = ()


class Func:
    def __init__(self, node, module, frame, defaults, kwdefaults, name, qual):
        self.node = node
        self.module = module
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.qual = qual
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qual


class KW(dict):
    """keyword arguments that remember which of them were looked at"""

    __slots__ = ("seen",)

    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def get(self, k, d=None):
        self.seen.add(k)
        return super().get(k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def all(self):
        self.seen.update(super().keys())

    def keys(self):
        self.all()
        return super().keys()

    def items(self):
        self.all()
        return super().items()

    def values(self):
        self.all()
        return super().values()

    def __iter__(self):
        self.all()
        return super().__iter__()

    def copy(self):
        self.all()
        return dict(super().items())


# keywords that change neither the values nor the structure of a result
HARMLESS_KW = {"dtype", "copy", "order", "subok", "casting", "inplace", "precision", "static_argnums", "static_argnames", "donate_argnums", "flush", "file", "stacklevel", "inline", "device", "exist_ok", "unroll", "indices_are_sorted", "unique_indices", "allow_pickle", "stable", "kind", "comments", "delimiter", "skiprows"}


class Prim:
    def __init__(self, name, fn, dtype=None):
        self.name = name
        self.fn = fn
        self.dtype = dtype

    def __repr__(self):
        return "<prim %s>" % self.name


class NTClass:
    def __init__(self, name, fields, defaults=None):
        self.name = name
        self.fields = tuple(fields)
        self.defaults = dict(defaults or {})

    def __repr__(self):
        return "<namedtuple class %s%s>" % (self.name, self.fields)


class NT:
    __slots__ = ("cls", "vals")

    def __init__(self, cls, vals):
        self.cls = cls
        self.vals = tuple(vals)
        if len(self.vals) != len(cls.fields):
            raise PyError("TypeError", "%s expects %d fields, got %d" % (cls.name, len(cls.fields), len(self.vals)))

    def field(self, name):
        return self.vals[self.cls.fields.index(name)]

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % z for z in zip(self.cls.fields, self.vals)))


class ClassV:
    def __init__(self, name, attrs, bases):
        self.name = name
        self.attrs = attrs
        self.bases = bases


class Instance:
    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class RangeV:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        if self.step != 1:
            if all(A.intval(x) is not None for x in (self.start, self.stop, self.step)):
                return len(range(A.intval(self.start), A.intval(self.stop), A.intval(self.step)))
            raise Undecided("strided symbolic range")
        n = A.norm_dim(T.sub(P(self.stop), P(self.start)))
        if isinstance(n, int):
            return max(0, n)
        return n

    def item(self, k):
        if isinstance(k, int) and isinstance(self.start, int) and isinstance(self.step, int):
            return self.start + k * self.step
        r = T.add(P(self.start), T.mul(P(self.step), P(k)))
        c = A.intval(r)
        return c if c is not None else r


class SymSeq:
    """sequence of symbolic length: item(k) = elem[tmp := k]"""

    def __init__(self, n, tmp, elem):
        self.n, self.tmp, self.elem = n, tmp, elem

    def item(self, k):
        return subst_value(self.elem, {T.single_atom(self.tmp): P(k)})

    def sym_to_array(self, jax):
        e = to_plain(self.elem, jax)
        return A.from_symbolic(self.n, self.tmp, e, jax)


class MapSeq:
    """lazily zipped/enumerated sequence of symbolic length"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def item(self, k):
        return self.f(k)

    def sym_to_array(self, jax):
        tmp = T.fresh_idx(P(self.n), "q")
        return A.from_symbolic(self.n, tmp, to_plain(self.f(tmp), jax), jax)


def to_plain(v, jax=True):
    if isinstance(v, (list, tuple, NT, SymSeq, MapSeq)):
        return A.to_array(v, jax)
    return v


class Phi:
    """gated join of values that have no common structure"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Opq:
    """value of an operation outside the analysed sources"""

    def __init__(self, name, *args):
        self.name = name
        self.args = args

    def __repr__(self):
        return "<%s>" % self.name


class FileV:
    """an HDF5 file or group: a mapping of named datasets"""

    def __init__(self, name, mode="r"):
        self.name = name
        self.mode = mode
        self.written = {}


class Record(dict):
    """a structured array: named columns of n rows"""

    def __init__(self, n, cols):
        dict.__init__(self, cols)
        self.n = n


class Ragged(list):
    """a dataset of variable-length rows, with named attributes"""

    def __init__(self, rows, attrs):
        list.__init__(self, rows)
        self.named = attrs


# ------------------------------------------------------------------- signals
class Ret:
    def __init__(self, v):
        self.v = v


class Brk:
    pass


class Cont:
    pass


class Rais:
    def __init__(self, exc):
        self.exc = exc


class Mix:
    """control leaves the block under c (with a), else continues/leaves with b"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def mixsig(c, a, b):
    if a is None and b is None:
        return None
    if isinstance(a, Ret) and isinstance(b, Ret):
        return Ret(merge(c, a.v, b.v))
    if isinstance(a, (Brk, Cont)) and type(a) is type(b):
        return a
    return Mix(c, a, b)


# ------------------------------------------------------------------- merging
def merge(c, a, b):
    if a is b:
        return a
    cv = T.cval(c)
    if cv is not None:
        return a if cv != 0 else b
    if A.is_num(a) and A.is_num(b):
        if type(a) is type(b) and not isinstance(a, Poly) and a == b:
            return a
        return T.ite(c, P(a), P(b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if A.is_arraylike(a) and A.is_arraylike(b):
            sa, sb = A.shape_of(a), A.shape_of(b)
            if len(sa) == len(sb) and all(A.same_dim(x, y) for x, y in zip(sa, sb)):
                r = A.emap(lambda x, y: T.ite(c, x, y), a, b)
                return r
        return Phi(c, a, b)
    if isinstance(a, NT) and isinstance(b, NT) and a.cls.fields == b.cls.fields:
        return NT(a.cls, [merge(c, x, y) for x, y in zip(a.vals, b.vals)])
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        return type(a)(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if isinstance(a, (str, type(None))) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, Opq) and isinstance(b, Opq) and a.name == b.name and len(a.args) == len(b.args) and all(x is y for x, y in zip(a.args, b.args)):
        return a
    if isinstance(a, NT) and isinstance(b, (tuple,)) and len(a.vals) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a.vals, b))
    if isinstance(b, NT) and isinstance(a, (tuple,)) and len(b.vals) == len(a):
        return tuple(merge(c, x, y) for x, y in zip(a, b.vals))
    return Phi(c, a, b)


def map_value(v, f):
    """apply f to every scalar/array leaf"""
    if isinstance(v, (Arr, Poly)):
        return f(v)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if isinstance(v, list):
        return [map_value(x, f) for x in v]
    if isinstance(v, NT):
        return NT(v.cls, [map_value(x, f) for x in v.vals])
    if isinstance(v, dict):
        return {k: map_value(x, f) for k, x in v.items()}
    if isinstance(v, SymSeq):
        return SymSeq(v.n, v.tmp, map_value(v.elem, f))
    if isinstance(v, Phi):
        return Phi(f(v.c), map_value(v.a, f), map_value(v.b, f))
    return v


def subst_value(v, m):
    def f(x):
        if isinstance(x, Poly):
            return T.subst(x, m)
        shp = tuple(A.norm_dim(T.subst(s, m)) if isinstance(s, Poly) else s for s in x.shape)
        if shp == x.shape:
            return Arr(x.shape, {k: T.subst(p, m) for k, p in x.data.items()}, x.dtype, x.jax)
        y = x
        return A.build(shp, lambda idx: T.subst(y.get(idx), m), x.dtype, x.jax)

    return map_value(v, f)


def rewrite_value(v, fa):
    def f(x):
        if isinstance(x, Poly):
            return T.rewrite(x, fa)
        return Arr(x.shape, {k: T.rewrite(p, fa) for k, p in x.data.items()}, x.dtype, x.jax)

    return map_value(v, f)


class Break_(Exception):
    pass


# ------------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, repo=None, intrinsics=None):
        self.repo = repo or REPO
        self.roots = dict(SOURCE_ROOTS)
        self.roots["diffstar"] = self.repo
        self.modules = {}
        self.journals = []
        from .summaries import SUMMARIES

        self.intrinsics = dict(SUMMARIES)
        self.intrinsics.update(intrinsics or {})
        self.depth = 0
        self.loc = None
        self.conds, self.cases = [], []
        self.effects = []  # (origin, loc) of writes to arrays/objects that are not fresh
        self.frozen = {}  # id -> (object, description) of module-level mutable state
        self.keylog = []  # RNG consumption
        self.covs = {}
        self.functions_seen = set()
        self.call_log = []
        self.calls = 0
        self.load_errors = {}
        self.assume = []
        from . import prims

        self.prims = prims
        self.env_externals = {}
        self.constants = {}  # name -> value to give a numeric module-level constant of that name
        self.on_call = None  # called with each function of the analysed source and its bound arguments
        self.on_load = None  # called with each module right after its body has run
        A.journal_hook[0] = self.touch
        A.effect_hook[0] = self.note_write

    # ---------------------------------------------------------- module loading
    def find_source(self, name):
        top = name.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        top = name.split(".")[0]
        if top in self.roots:
            src = self.find_source(name)
            if src is None:
                raise PyError("ModuleNotFoundError", name)
            path, ispkg = src
            # parents first
            if "." in name:
                par = self.load(name.rsplit(".", 1)[0])
                m = self.modules.get(name)
                if m is not None:
                    return m
            m = ModuleV(name, path)
            m.ispkg = ispkg
            self.modules[name] = m
            with open(path, encoding="utf-8") as f:
                text = f.read()
            tree = ast.parse(text, path)
            m.globals["__name__"] = name
            m.globals["__file__"] = path
            m.globals["__doc__"] = None
            fr = Frame(None, m)
            fr.vars = m.globals
            oldloc = self.loc
            try:
                if name not in LAZY_PACKAGES:
                    self.block(tree.body, fr)
            except BaseException:
                self.modules.pop(name, None)
                raise
            self.loc = oldloc
            m.loading = False
            self.freeze(m)
            if self.on_load is not None:
                self.on_load(m)
            if "." in name:
                par.globals.setdefault(name.rsplit(".", 1)[1], m)
            return m
        pm = self.prims.prim_module(self, name)
        if pm is None:
            raise PyError("ModuleNotFoundError", name)
        self.modules[name] = pm
        return pm

    def freeze(self, m):
        def walk(v, desc, seen):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, (list, dict, Arr)):
                if not (isinstance(v, Arr) and v.jax):
                    self.frozen.setdefault(id(v), (v, desc))
            if isinstance(v, dict):
                for k, x in v.items():
                    walk(x, "%s[%r]" % (desc, k), seen)
            elif isinstance(v, (list, tuple)):
                for k, x in enumerate(v):
                    walk(x, "%s[%d]" % (desc, k), seen)
            elif isinstance(v, NT):
                for k, x in zip(v.cls.fields, v.vals):
                    walk(x, "%s.%s" % (desc, k), seen)
            elif isinstance(v, Func):
                for k, x in enumerate(v.defaults):
                    walk(x, "%s default %d" % (v.qual, k), seen)
                for k, x in v.kwdefaults.items():
                    walk(x, "%s default %s" % (v.qual, k), seen)

        seen = set()
        for k, v in m.globals.items():
            if k.startswith("__"):
                continue
            walk(v, m.name + "." + k, seen)

    # ---------------------------------------------------------- mutation journal
    def touch(self, obj):
        """call before mutating a list, dict, Arr, Frame or Instance"""
        if isinstance(obj, (list, dict)) and id(obj) in self.frozen:
            m = self.modules.get(self.frozen[id(obj)][1].split("[")[0].rsplit(".", 1)[0])
            self.effects.append(("global:" + self.frozen[id(obj)][1], self.loc))
        if self.journals:
            j = self.journals[-1]
            if id(obj) not in j:
                j[id(obj)] = (obj, get_state(obj))

    def note_write(self, arr):
        if id(arr) in self.frozen:
            self.effects.append(("global:" + self.frozen[id(arr)][1], self.loc))
        elif arr.origin is not None:
            self.effects.append((arr.origin, self.loc))

    def push(self):
        self.journals.append({})

    def pop(self):
        """roll back; return final states {id: (obj, state)}"""
        j = self.journals.pop()
        out = {}
        for k, (obj, old) in j.items():
            out[k] = (obj, get_state(obj))
        for k, (obj, old) in j.items():
            set_state(obj, old)
        return out

    def apply(self, states):
        for k, (obj, st) in states.items():
            self.touch(obj)
            set_state(obj, st)

    def merge_states(self, c, sa, sb):
        for k in set(sa) | set(sb):
            obj = (sa.get(k) or sb.get(k))[0]
            cur = get_state(obj)
            a = sa[k][1] if k in sa else cur
            b = sb[k][1] if k in sb else cur
            n = merge_state(obj, c, a, b)
            self.touch(obj)
            set_state(obj, n)

    def fork(self, c, fa, fb):
        """run fa / fb under c / not c; join their effects; returns joined signal"""
        cv = T.cval(c)
        if cv is None:
            cv = self.assumed(c)
        if cv is not None:
            return fa() if cv != 0 else fb()
        self.push()
        ra = self._try(fa)
        sa = self.pop()
        self.push()
        rb = self._try(fb)
        sb = self.pop()
        if isinstance(ra, Rais) and isinstance(rb, Rais):
            raise ra.exc
        if isinstance(ra, Rais):
            self.apply(sb)
            return rb
        if isinstance(rb, Rais):
            self.apply(sa)
            return ra
        self.merge_states(c, sa, sb)
        return mixsig(c, ra, rb)

    def assumed(self, c):
        """a condition on array lengths alone: its value under the present case distinction, if it has one; any such
        condition met in the analysed sources is remembered for one"""
        if not isinstance(c, Poly) or any(a.kind in ("var", "app", "idx") for a in T.all_atoms(c)):
            return None
        for d, v in self.cases:
            if T.equal(d, c):
                return v
        if not any(T.equal(d, c) for d in self.conds):
            self.conds.append(c)
        return None

    def _try(self, f):
        try:
            return f()
        except PyError as e:
            return Rais(e)

    def merge_calls(self, c, fa, fb):
        """value of (fa() if c else fb())"""
        cv = T.cval(c)
        if cv is None:
            cv = self.assumed(c)
        if cv is not None:
            return fa() if cv != 0 else fb()
        r = self.fork(c, lambda: Ret(fa()), lambda: Ret(fb()))
        return r.v

    # ---------------------------------------------------------- truth
    def truth(self, v):
        """int 0/1 Poly (possibly symbolic) truth value"""
        if isinstance(v, bool):
            return T.const(int(v))
        if v is None:
            return T.ZERO
        if isinstance(v, (int, Fraction)):
            return T.const(int(v != 0))
        if isinstance(v, Poly):
            return T.truth(v)
        if isinstance(v, (str, list, tuple, dict, set)):
            return T.const(int(len(v) > 0))
        if isinstance(v, NT):
            return T.const(int(len(v.vals) > 0))
        if isinstance(v, Arr):
            if A.size_of(v) == 1:
                return T.truth(v.get([0] * v.ndim))
            raise PyError("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Phi):
            return T.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, SymSeq):
            return self.truth(T.lt(T.ZERO, P(v.n)))
        if isinstance(v, Opq):
            raise Undecided("truth of %r" % (v,))
        return T.ONE

    # ---------------------------------------------------------- statements
    def block(self, stmts, fr):
        for k, st in enumerate(stmts):
            sig = self.stmt(st, fr)
            if sig is None:
                continue
            if isinstance(sig, Mix):
                rest = stmts[k + 1 :]
                if not rest:
                    return sig
                return self.after(sig, lambda: self.block(rest, fr))
            return sig
        return None

    def after(self, sig, f):
        """continue with f where sig falls through"""
        c = fall_cond(sig)
        cv = T.cval(c)
        if cv == 0:
            return sig
        self.push()
        r = self._try(f)
        st = self.pop()
        if isinstance(r, Rais):
            # never falls through without raising: drop those paths
            return replace_fall(sig, None, drop=True)
        self.merge_states(c, st, {})
        return replace_fall(sig, r)

    def stmt(self, st, fr):
        self.loc = (fr.module.path, st.lineno)
        T.set_loc(self.loc)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(st).__name__)
        try:
            return m(st, fr)
        except PyError as e:
            if getattr(e, "loc", None) is None:
                e.loc = (fr.module.path, st.lineno)
            raise

    def s_Expr(self, st, fr):
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        return None

    def s_Assert(self, st, fr):
        try:
            v = T.cval(self.truth(self.ev(st.test, fr)))
        except (Undecided, PyError):
            return None
        if v == 0:
            raise PyError("AssertionError", ast.unparse(st.test))
        return None

    def s_Break(self, st, fr):
        return Brk()

    def s_Continue(self, st, fr):
        return Cont()

    def s_Return(self, st, fr):
        return Ret(self.ev(st.value, fr) if st.value is not None else None)

    def s_Raise(self, st, fr):
        kind = "Exception"
        if st.exc is not None:
            e = st.exc
            n = e.func if isinstance(e, ast.Call) else e
            if isinstance(n, ast.Name):
                kind = n.id
            elif isinstance(n, ast.Attribute):
                kind = n.attr
        raise PyError(kind, "raised at %s:%d" % (fr.module.path, st.lineno))

    def s_Global(self, st, fr):
        fr.globals_decl = tuple(fr.globals_decl) + tuple(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(st.names)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.touch(fr)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.index(t.slice, fr)
                self.touch(o)
                del o[i]

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op)
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.ev(st.value, fr)
            if isinstance(cur, Arr) and not cur.jax:
                new = self.binop(op, cur, v)
                if not (isinstance(new, Arr) and len(new.shape) == len(cur.shape)):
                    raise PyError("ValueError", "in-place broadcast")
                A.store(cur, new)
                return
            if isinstance(cur, list) and op is ast.Add:
                self.touch(cur)
                cur.extend(self.iterate(v))
                return
            self.assign(t, self.binop(op, cur, v), fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.ev(st.value, fr)
            self.setitem(o, i, self.binop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, fr)
            self.setattr(o, t.attr, self.binop(op, cur, v))

    def setvar(self, name, v, fr):
        if name in fr.globals_decl:
            if not fr.module.loading or fr.vars is not fr.module.globals:
                self.effects.append(("global:%s.%s" % (fr.module.name, name), self.loc))
            self.touch(fr.module.globals)
            fr.module.globals[name] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    self.touch(p)
                    p.vars[name] = v
                    return
                p = p.parent
        if self.constants and name in self.constants and fr.vars is fr.module.globals and A.is_num(v) and T.cval(P(v)) is not None:
            v = self.constants[name](fr.module, v)
        self.touch(fr)
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if isinstance(v, Func) and v.name == "<lambda>":
                v.name = t.id
            self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Phi):
                v = self.dephi(v)
            vals = self.iterate(v, len(t.elts) if not star else None)
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyError("ValueError", "not enough values to unpack")
                vals = list(vals)
                mid = vals[k : len(vals) - after]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, mid, fr)
                for e, x in zip(t.elts[k + 1 :], vals[len(vals) - after :] if after else []):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise PyError("ValueError", "unpack %d values into %d targets" % (len(vals), len(t.elts)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.index(t.slice, fr)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided("assignment target")

    def dephi(self, v):
        """push a gated join inside structured values where possible"""
        a = self.dephi(v.a) if isinstance(v.a, Phi) else v.a
        b = self.dephi(v.b) if isinstance(v.b, Phi) else v.b
        m = merge(v.c, a, b)
        return m

    def s_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        cv = T.cval(c)
        if cv is not None:
            return self.block(st.body if cv != 0 else st.orelse, fr)
        return self.fork(c, lambda: self.block(st.body, fr), lambda: self.block(st.orelse, fr))

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.block(st.body, fr)

    def s_Try(self, st, fr):
        self.push()
        r = self._try(lambda: self.block(st.body, fr))
        if isinstance(r, Rais):
            # keep effects made before the exception (conservative: as executed)
            states = self.pop()
            self.apply(states)
            for h in st.handlers:
                if self.handles(h, r.exc, fr):
                    if h.name:
                        self.setvar(h.name, Opq("exception"), fr)
                    s = self.block(h.body, fr)
                    if st.finalbody and s is None:
                        return self.block(st.finalbody, fr)
                    return s
            if st.finalbody:
                self.block(st.finalbody, fr)
            raise r.exc
        self.apply(self.pop())
        if r is None and st.orelse:
            r = self.block(st.orelse, fr)
        if st.finalbody:
            s = self.block(st.finalbody, fr)
            if s is not None:
                return s
        return r

    def handles(self, h, exc, fr):
        if h.type is None:
            return True
        names = []
        t = h.type
        for e in t.elts if isinstance(t, ast.Tuple) else [t]:
            names.append(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?"))
        if "Exception" in names or "BaseException" in names:
            return True
        sup = {
            "ModuleNotFoundError": ("ImportError",),
            "KeyError": ("LookupError",),
            "IndexError": ("LookupError",),
            "AxisError": ("ValueError", "IndexError"),
            "FileNotFoundError": ("OSError", "IOError"),
        }
        return exc.kind in names or any(s in names for s in sup.get(exc.kind, ()))

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                self.setvar(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.setvar(top, self.load(top), fr)

    def s_ImportFrom(self, st, fr):
        base = st.module or ""
        if st.level:
            pk = fr.module.name.split(".")
            if not getattr(fr.module, "ispkg", False):
                pk = pk[:-1]
            pk = pk[: len(pk) - (st.level - 1)]
            base = ".".join(pk + ([st.module] if st.module else []))
        if base == "__future__":
            return
        m = self.load(base)
        for a in st.names:
            if a.name == "*":
                for k, v in list(m.globals.items()):
                    if not k.startswith("_"):
                        self.setvar(k, v, fr)
                continue
            v = self.module_attr(m, a.name, True)
            self.setvar(a.asname or a.name, v, fr)

    def module_attr(self, m, name, imp=False):
        if name in m.globals:
            return m.globals[name]
        if isinstance(m, self.prims.PrimModule):
            return m.attr(self, name)
        full = m.name + "." + name
        if full in self.modules:
            return self.modules[full]
        if self.find_source(full) is not None:
            return self.load(full)
        if imp:
            raise PyError("ImportError", "cannot import name %s from %s" % (name, m.name))
        raise PyError("AttributeError", "module %s has no attribute %s" % (m.name, name))

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.ev(d, fr)
            v = self.call(dec, [v], {})
        self.setvar(st.name, v, fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, fr)
        isglobal = fr.vars is fr.module.globals
        qual = fr.module.name + "." + name
        return Func(node, fr.module, None if isglobal else fr, defaults, kwd, name, qual)

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        if any(isinstance(b, Prim) and b.name == "NamedTuple" for b in bases):
            fields = []
            dflt = {}
            for s in st.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append(s.target.id)
                    if s.value is not None:
                        dflt[s.target.id] = self.ev(s.value, fr)
            self.setvar(st.name, NTClass(st.name, fields, dflt), fr)
            return
        f2 = Frame(fr if fr.vars is not fr.module.globals else None, fr.module)
        self.block(st.body, f2)
        nt = [b for b in bases if isinstance(b, NTClass)]
        if nt:
            c = NTClass(st.name, nt[0].fields, nt[0].defaults)
            c.methods = f2.vars
            self.setvar(st.name, c, fr)
            return
        v = ClassV(st.name, f2.vars, bases)
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.setvar(st.name, v, fr)

    # ------------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        n, item = self.seq(it)
        if isinstance(n, int):
            if n > 4000:
                return self.sym_loop(st, fr, n, item)
            return self.unrolled_for(st, fr, n, item)
        return self.sym_loop(st, fr, n, item)

    def seq(self, it):
        """(length, item function) of an iterable"""
        if isinstance(it, Phi):
            it = self.dephi(it)
        if isinstance(it, RangeV):
            return it.length(), it.item
        if isinstance(it, (SymSeq, MapSeq)):
            return it.n, it.item
        if isinstance(it, Arr):
            if it.ndim == 0:
                raise PyError("TypeError", "iteration over a 0-d array")
            return it.shape[0], lambda k: A.getitem(it, k)[0]
        if isinstance(it, FileV):
            return self.seq(self.prims.h5_keys(self, it))
        vals = self.iterate(it)
        return len(vals), lambda k: vals[k]

    def iterate(self, v, expect=None):
        """concrete Python list of the items of an iterable"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, NT):
            return list(v.vals)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            n = v.length()
            if isinstance(n, int):
                return [v.item(k) for k in range(n)]
            raise Undecided("iteration over a symbolic range")
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyError("TypeError", "iteration over a 0-d array")
            n = v.shape[0]
            if isinstance(n, int):
                return [A.getitem(v, k)[0] for k in range(n)]
            if expect is not None:
                raise PyError("ValueError", "unpacking an array of symbolic length")
            raise Undecided("iteration over an array of symbolic length")
        if isinstance(v, (SymSeq, MapSeq)):
            if isinstance(v.n, int):
                return [v.item(k) for k in range(v.n)]
            raise Undecided("iteration over a sequence of symbolic length")
        if isinstance(v, Opq) and expect is not None:
            return [Opq("%s[%d]" % (v.name, k), v, k) for k in range(expect)]
        if isinstance(v, Phi):
            return self.iterate(self.dephi(v), expect)
        if isinstance(v, Poly) or A.is_num(v):
            raise PyError("TypeError", "cannot iterate over a scalar")
        raise Undecided("iteration over %r" % (v,))

    def unrolled_for(self, st, fr, n, item):
        def step(k):
            def run():
                if k >= n:
                    if st.orelse:
                        return self.block(st.orelse, fr)
                    return None
                self.assign(st.target, item(k), fr)
                sig = self.block(st.body, fr)
                return self.loop_next(sig, lambda: step(k + 1)())

            return run

        # iterative when no symbolic control flow is involved
        k = 0
        while k < n:
            self.assign(st.target, item(k), fr)
            sig = self.block(st.body, fr)
            k += 1
            if sig is None or isinstance(sig, Cont):
                continue
            if isinstance(sig, Brk):
                return None
            if isinstance(sig, Ret):
                return sig
            return self.loop_next(sig, step(k))
        if st.orelse:
            return self.block(st.orelse, fr)
        return None

    def loop_next(self, sig, f):
        """sig of one iteration -> signal of the whole loop"""
        sig = drop_cont(sig)
        if sig is None:
            return f()
        if isinstance(sig, Brk):
            return None
        if isinstance(sig, Ret):
            return sig
        # Mix: continue where it falls through
        c = fall_cond(sig)
        if T.cval(c) == 0:
            return brk_to_fall(sig)
        s2 = self.after(sig_hold(sig), f)
        return brk_to_fall(s2)

    def counted(self, st, fr):
        """(counter, first, limit) of a while loop that counts up by one to a limit the loop does not change"""
        t = st.test
        if st.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt):
            l, op, r = r, ast.Lt(), l
        if not isinstance(op, ast.Lt) or not isinstance(l, ast.Name):
            return None
        stored, incs = set(), 0
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Continue, ast.Break, ast.Return)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    stored.add(x.id)
                    incs += x.id == l.id
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                    stored.add(x.func.value.id if x.func.attr in ("append", "extend", "pop", "insert", "remove", "clear") else "")
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1
        me = lambda e: isinstance(e, ast.Name) and e.id == l.id
        inc = [b for b in st.body if isinstance(b, ast.AugAssign) and me(b.target) and isinstance(b.op, ast.Add) and one(b.value)
               or isinstance(b, ast.Assign) and len(b.targets) == 1 and me(b.targets[0]) and isinstance(b.value, ast.BinOp)
               and isinstance(b.value.op, ast.Add) and (me(b.value.left) and one(b.value.right) or one(b.value.left) and me(b.value.right))]
        if len(inc) != 1 or incs != 1:
            return None
        for x in ast.walk(r):
            if isinstance(x, ast.Name) and x.id in stored or isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
        first, limit = A.intval(self.ev(l, fr)), self.ev(r, fr)
        if first is None or not (isinstance(limit, (int, Poly)) and not isinstance(limit, bool)):
            return None
        return l.id, first, limit

    def s_While(self, st, fr):
        limit = getattr(self, "while_limit", 64)
        cl = self.counted(st, fr)
        if cl is not None:
            n = RangeV(cl[1], cl[2])
            if not isinstance(n.length(), int) or n.length() > limit:
                loop = ast.For(target=ast.Name(cl[0], ast.Store()), iter=None, body=st.body, orelse=[])
                ast.copy_location(loop, st)
                ast.copy_location(loop.target, st)
                m = n.length()
                return self.unrolled_for(loop, fr, m, n.item) if isinstance(m, int) and m <= 4000 else self.sym_loop(loop, fr, m, n.item)

        def step(k):
            def run():
                c = self.truth(self.ev(st.test, fr))
                cv = T.cval(c)
                if cv == 0:
                    return self.block(st.orelse, fr) if st.orelse else None
                if k >= limit:
                    raise Undecided("while loop not unrolled within %d iterations" % limit)

                def body():
                    sig = self.block(st.body, fr)
                    return self.loop_next(sig, step(k + 1))

                if cv is not None:
                    return body()
                return self.fork(c, body, lambda: None)

            return run

        # iterative while no symbolic control flow is involved
        k = 0
        while k < limit:
            c = self.truth(self.ev(st.test, fr))
            cv = T.cval(c)
            if cv == 0:
                return self.block(st.orelse, fr) if st.orelse else None

            def body(k=k):
                return self.loop_next(self.block(st.body, fr), step(k + 1))
            if cv is None:
                return self.fork(c, body, lambda: None)
            sig = self.block(st.body, fr)
            k += 1
            if sig is None or isinstance(sig, Cont):
                continue
            if isinstance(sig, Brk):
                return None
            if isinstance(sig, Ret):
                return sig
            return self.loop_next(sig, step(k))
        raise Undecided("while loop not unrolled within %d iterations" % limit)

    def sym_loop(self, st, fr, n, item):
        """for-loop over a symbolic number of items, as a recurrence"""
        from . import recur

        return recur.for_loop(self, st, fr, n, item)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, bytes)):
            return v
        if isinstance(v, float):
            if v == float("inf"):
                return T.INF
            return Fraction(repr(v))
        if v is Ellipsis:
            return ELL
        raise Undecided("constant %r" % (v,))

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        g = fr.module.globals
        if n in g:
            return g[n]
        b = self.prims.builtin(self, n)
        if b is not None:
            return b
        raise PyError("NameError", n)

    def e_Name(self, e, fr):
        if e.id in fr.globals_decl:
            return fr.module.globals[e.id]
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, Phi):
            o2 = self.dephi(o)
            if isinstance(o2, Phi):
                return self.merge_calls(o2.c, lambda: self.getattr(o2.a, name), lambda: self.getattr(o2.b, name))
            o = o2
        return self.prims.get_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, NT):
            raise PyError("AttributeError", "can't set attribute")
        if isinstance(o, ModuleV):
            self.effects.append(("global:%s.%s" % (o.name, name), self.loc))
            self.touch(o.globals)
            o.globals[name] = v
            return
        if isinstance(o, Arr) and name == "shape":
            r = A.reshape(o, self.iterate(v) if not A.is_num(v) else [v])
            self.touch(o)
            o._data, o.shape = r._data, r.shape
            return
        if isinstance(o, Opq):
            return
        raise Undecided("attribute assignment on %r" % (o,))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Sl(
                self.ev(s.lower, fr) if s.lower else None,
                self.ev(s.upper, fr) if s.upper else None,
                self.ev(s.step, fr) if s.step else None,
            )
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out += self.iterate(self.ev(x.value, fr))
                else:
                    out.append(self.index(x, fr))
            return tuple(out)
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        i = self.index(e.slice, fr)
        return self.getitem(o, i)

    def getitem(self, o, i):
        if isinstance(o, Phi):
            o2 = self.dephi(o)
            if isinstance(o2, Phi):
                return self.merge_calls(o2.c, lambda: self.getitem(o2.a, i), lambda: self.getitem(o2.b, i))
            o = o2
        return self.prims.get_item(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Phi):
            raise Undecided("assignment into a joined value")
        if isinstance(o, Arr):
            if isinstance(v, (list, tuple, NT, SymSeq)):
                v = A.to_array(v, False)
            A.write(o, fix_index(self, i), v)
            return
        if isinstance(o, dict):
            self.touch(o)
            o[hashable(i)] = v
            return
        if isinstance(o, list):
            self.touch(o)
            if isinstance(i, Sl):
                s = slice(*[None if x is None else A.intval(x) for x in (i.start, i.stop, i.step)])
                o[s] = self.iterate(v)
                return
            k = A.intval(i)
            if k is None:
                for j in range(len(o)):
                    o[j] = merge(T.eq(P(i), T.const(j)), v, o[j])
                return
            if not -len(o) <= k < len(o):
                raise PyError("IndexError", "list assignment index out of range")
            o[k] = v
            return
        if isinstance(o, FileV):
            self.prims.h5_write(self, o, i, v)
            return
        if isinstance(o, (tuple, NT)):
            raise PyError("TypeError", "object does not support item assignment")
        if isinstance(o, (Poly, int, float, str)) and isinstance(i, (Arr, int, Sl)):
            raise PyError("IndexError", "item assignment into a scalar")
        raise Undecided("item assignment on %r" % (o,))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(hashable(x) for x in self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.as_dict(self.ev(v, fr)))
            else:
                d[hashable(self.ev(k, fr))] = self.ev(v, fr)
        return d

    def as_dict(self, v):
        if isinstance(v, dict):
            return v
        raise Undecided("mapping %r" % (v,))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        self.loc = (fr.module.path, e.lineno)
        T.set_loc(self.loc)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        for x, y, first in ((a, b, True), (b, a, False)):
            if isinstance(x, Phi):
                x2 = self.dephi(x)
                if isinstance(x2, Phi):
                    if first:
                        return self.merge_calls(x2.c, lambda: self.binop(op, x2.a, b), lambda: self.binop(op, x2.b, b))
                    return self.merge_calls(x2.c, lambda: self.binop(op, a, x2.a), lambda: self.binop(op, a, x2.b))
                if first:
                    a = x2
                else:
                    b = x2
        return self.prims.binop(self, op, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.prims.unop(self, type(e.op), v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def rec(k):
            v = self.ev(e.values[k], fr)
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            cv = T.cval(c)
            if cv is not None:
                if isand:
                    return rec(k + 1) if cv != 0 else v
                return v if cv != 0 else rec(k + 1)
            if isand:
                return self.merge_calls(c, lambda: rec(k + 1), lambda: v)
            return self.merge_calls(c, lambda: v, lambda: rec(k + 1))

        return rec(0)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            self.loc = (fr.module.path, e.lineno)
            T.set_loc(self.loc)
            v = self.prims.compare(self, type(op), left, right)
            if out is None:
                out = v
            else:
                c1 = self.truth(out)
                if T.cval(c1) == 0:
                    return out
                if T.cval(c1) is not None:
                    out = v
                else:
                    out = T.b_and(c1, self.truth(v))
            left = right
        return out

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.merge_calls(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Undecided("starred expression")

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if isinstance(x, (str, int)) and not isinstance(x, bool):
                    try:
                        out.append(format(x, spec))
                        continue
                    except ValueError:
                        pass
                out.append(format(printed(x), spec) if isinstance(x, (Poly, Fraction, Arr)) else "{%s}" % text_of(x))
        return "".join(out)

    def comp(self, gens, fr, leaf):
        """run comprehension generators; list of leaf() results, or a SymSeq"""
        f2 = Frame(fr, fr.module)
        if fr.vars is fr.module.globals:
            f2.parent = None
            f2 = Frame(None, fr.module)

        def rec(k):
            if k == len(gens):
                return [leaf(f2)]
            g = gens[k]
            it = self.ev(g.iter, f2 if k else fr)
            n, item = self.seq(it)
            if not isinstance(n, int) or n > 4000:
                if len(gens) != 1 or g.ifs:
                    raise Undecided("comprehension over a symbolic sequence")
                tmp = T.fresh_idx(P(n), "c")
                self.assign(g.target, item(tmp), f2)
                return SymSeq(n, tmp, leaf(f2))
            out = []
            for j in range(n):
                self.assign(g.target, item(j), f2)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, f2))
                    tv = T.cval(t)
                    if tv is None:
                        raise Undecided("symbolic comprehension filter")
                    if tv == 0:
                        ok = False
                        break
                if ok:
                    r = rec(k + 1)
                    if isinstance(r, SymSeq):
                        out.append(r)
                    else:
                        out += r
            return out

        return rec(0)

    def e_ListComp(self, e, fr):
        return self.comp(e.generators, fr, lambda f: self.ev(e.elt, f))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return set(hashable(x) for x in self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        prs = self.comp(e.generators, fr, lambda f: (hashable(self.ev(e.key, f)), self.ev(e.value, f)))
        if isinstance(prs, SymSeq):
            raise Undecided("dict over a symbolic sequence")
        return dict(prs)

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.as_dict(self.ev(k.value, fr))
                for kk in d:
                    if kk in kw:
                        raise PyError("TypeError", "multiple values for keyword argument %s" % kk)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        loc = (fr.module.path, e.lineno)
        self.loc = loc
        T.set_loc(loc)
        if isinstance(f, Prim) and f.name in ("locals", "globals"):
            return dict(fr.vars) if f.name == "locals" else fr.module.globals
        r = self.call(f, args, kw)
        self.loc = loc
        T.set_loc(loc)
        return r

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, Prim):
            if not kw:
                return f.fn(self, list(args), {})
            k = KW(kw)
            r = f.fn(self, list(args), k)
            rest = [x for x in kw if x not in k.seen and x not in HARMLESS_KW and kw[x] is not None]
            if rest == ["out"] and isinstance(kw["out"], Arr):
                self.setitem(kw["out"], Sl(None, None, None), r)
                return kw["out"]
            if rest and f.name not in self.env_externals:
                raise Undecided("keyword %s of %s is not modelled" % (", ".join(rest), f.name))
            return r
        if isinstance(f, Func):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, NTClass):
            return self.make_nt(f, args, kw)
        if isinstance(f, Phi):
            return self.merge_calls(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, ClassV):
            inst = Instance(f, {})
            init = self.class_attr(f, "__init__")
            if init is not None:
                self.call(init, [inst] + list(args), kw)
            return inst
        if isinstance(f, Instance):
            m = self.class_attr(f.cls, "__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw)
        if isinstance(f, Opq):
            return Opq(f.name + "()", f, tuple(args), tuple(sorted(kw.items(), key=lambda z: z[0])))
        raise PyError("TypeError", "%r is not callable" % (f,))

    def class_attr(self, c, name):
        if name in c.attrs:
            return c.attrs[name]
        for b in c.bases:
            if isinstance(b, ClassV):
                r = self.class_attr(b, name)
                if r is not None:
                    return r
        return None

    def make_nt(self, cls, args, kw):
        vals = list(args)
        if len(vals) > len(cls.fields):
            raise PyError("TypeError", "%s: too many arguments" % cls.name)
        for f in cls.fields[len(vals) :]:
            if f in kw:
                vals.append(kw[f])
            elif f in cls.defaults:
                vals.append(cls.defaults[f])
            else:
                raise PyError("TypeError", "%s: missing field %s" % (cls.name, f))
        for k in kw:
            if k not in cls.fields:
                raise PyError("TypeError", "%s: unexpected field %s" % (cls.name, k))
            if k in cls.fields[: len(args)]:
                raise PyError("TypeError", "%s: duplicate field %s" % (cls.name, k))
        return NT(cls, vals)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        npos = len(names)
        out = {}
        if len(args) > npos and a.vararg is None:
            raise PyError("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, npos, len(args)))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[npos:])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in out:
                    raise PyError("TypeError", "%s() got multiple values for argument %s" % (f.name, k))
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyError("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k))
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(names[npos - nd :], f.defaults):
            if n not in out:
                out[n] = d
        for n in kwonly:
            if n not in out and n in f.kwdefaults:
                out[n] = f.kwdefaults[n]
        for n in names + kwonly:
            if n not in out:
                raise PyError("TypeError", "%s() missing required argument %s" % (f.name, n))
        return out

    def call_func(self, f, args, kw):
        intr = self.intrinsics.get(f.qual)
        if self.on_call is not None:
            self.on_call(f, args, kw)
        if intr is not None:
            return intr(self, f, args, kw)
        if self.depth > 120:
            raise Undecided("call depth")
        self.calls += 1
        self.functions_seen.add((f.module.name, f.name, f.node.lineno))
        loc = self.loc
        fr = Frame(f.frame, f.module)
        fr.vars = self.bind(f, args, kw)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if is_generator(f.node):
                return self.run_generator(f, fr)
            sig = self.block(f.node.body, fr)
            return sig_value(sig)
        finally:
            self.depth -= 1
            self.loc = loc
            T.set_loc(loc)

    def run_generator(self, f, fr):
        fr.vars["@yield"] = []
        self.block(f.node.body, fr)
        return list(fr.vars["@yield"])

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        y = fr.vars["@yield"]
        self.touch(y)
        y.append(v)
        return None

    def get(self, dotted):
        """value of an attribute path such as diffstar.utils.cumtrapz"""
        mod, name = dotted.rsplit(".", 1)
        m = self.load(mod)
        return self.module_attr(m, name)


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def fall_cond(sig):
    """condition under which control falls through"""
    if sig is None:
        return T.ONE
    if isinstance(sig, Mix):
        return T.ite(sig.c, fall_cond(sig.a), fall_cond(sig.b))
    return T.ZERO


def replace_fall(sig, r, drop=False):
    if sig is None:
        return r
    if isinstance(sig, Mix):
        if drop:
            if sig.a is None:
                return sig.b
            if sig.b is None:
                return sig.a
            return mixsig(sig.c, replace_fall(sig.a, None, True), replace_fall(sig.b, None, True))
        return mixsig(sig.c, replace_fall(sig.a, r), replace_fall(sig.b, r))
    return sig


def drop_cont(sig):
    if isinstance(sig, Cont):
        return None
    if isinstance(sig, Mix):
        a, b = drop_cont(sig.a), drop_cont(sig.b)
        return mixsig(sig.c, a, b)
    return sig


def sig_hold(sig):
    return sig


def brk_to_fall(sig):
    if isinstance(sig, Brk):
        return None
    if isinstance(sig, Mix):
        return mixsig(sig.c, brk_to_fall(sig.a), brk_to_fall(sig.b))
    return sig


def sig_value(sig):
    if sig is None:
        return None
    if isinstance(sig, Ret):
        return sig.v
    if isinstance(sig, Mix):
        return merge(sig.c, sig_value(sig.a), sig_value(sig.b))
    return None


def get_state(o):
    if isinstance(o, list):
        return list(o)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, Frame):
        return dict(o.vars)
    if isinstance(o, Arr):
        return (o._data, o.ver)
    if isinstance(o, Instance):
        return dict(o.attrs)
    if isinstance(o, FileV):
        return dict(o.written)
    raise Undecided("state of %r" % (o,))


def set_state(o, s):
    if isinstance(o, list):
        o[:] = s
    elif isinstance(o, dict):
        o.clear()
        o.update(s)
    elif isinstance(o, Frame):
        if o.vars is o.module.globals:
            o.vars.clear()
            o.vars.update(s)
        else:
            o.vars = dict(s)
    elif isinstance(o, Arr):
        o._data = s[0]
        o.ver = o.ver + 1
    elif isinstance(o, Instance):
        o.attrs = dict(s)
    elif isinstance(o, FileV):
        o.written = dict(s)


_MISSING = object()


def merge_state(o, c, a, b):
    if isinstance(o, (Frame, dict, Instance)):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, _MISSING), b.get(k, _MISSING)
            if x is _MISSING:
                out[k] = y
            elif y is _MISSING:
                out[k] = x
            else:
                out[k] = merge(c, x, y)
        return out
    if isinstance(o, list):
        if len(a) == len(b):
            return [merge(c, x, y) for x, y in zip(a, b)]
        raise Undecided("list of undetermined length")
    if isinstance(o, Arr):
        return ({k: T.ite(c, a[0][k], b[0][k]) for k in a[0]}, a[1])
    raise Undecided("join of %r" % (o,))


def hashable(k):
    if isinstance(k, list):
        raise PyError("TypeError", "unhashable type: list")
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def fix_index(ip, i):
    if isinstance(i, tuple):
        return tuple(fix_index(ip, x) for x in i)
    if isinstance(i, (SymSeq, MapSeq)):
        return i.sym_to_array(True)
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, Phi):
        return ip.dephi(i)
    return i


class Printed:
    """a symbolic value inside formatted text: {:spec} before the text of the value"""

    def __init__(self, x):
        self.x = x

    def __format__(self, spec):
        x = self.x
        c = T.cval(x) if isinstance(x, Poly) else x if isinstance(x, Fraction) else None
        if spec and isinstance(c, (int, Fraction)):
            try:
                return format(int(c) if spec[-1] in "dxob" else float(c), spec)
            except ValueError:
                pass
        return ("{:%s}" % spec if spec else "") + text_of(x)

    def __str__(self):
        return text_of(self.x)

    __repr__ = __str__


def printed(x):
    return Printed(x) if isinstance(x, (Poly, Fraction, Arr)) else x


def percent(fmt, args):
    """old-style formatting"""
    import re

    args = list(args) if isinstance(args, tuple) else [args]

    def one(m):
        if m.group(2) == "%":
            return "%"
        x = args.pop(0)
        if not isinstance(x, (Poly, Fraction, Arr)):
            return m.group(0) % (x,)
        if m.group(2) in "sr":
            return text_of(x)
        return format(Printed(x), m.group(1) + m.group(2).replace("i", "d"))

    return re.sub(r"%([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", one, fmt)


def text_of(x):
    if isinstance(x, Poly):
        return T.fmt(x, 3)
    if isinstance(x, Fraction):
        return str(float(x))
    return str(x)
