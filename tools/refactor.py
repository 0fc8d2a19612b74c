"""tools/refactor.py NAME DIR : apply one behaviour-preserving transformation to every
non-test source file of the tree DIR (a scratch copy of /repo).  Development aid:
the checks must stay quiet on every result."""
import ast, os, sys, re, copy

def files(root):
    for d, ds, fs in os.walk(os.path.join(root, "diffstar")):
        ds[:] = [x for x in ds if x not in ("tests", "__pycache__")]
        for f in fs:
            if f.endswith(".py") and f != "__init__.py" and f != "_version.py":
                yield os.path.join(d, f)

def scope_locals(fn):
    """names assigned in fn itself, not params, and not used in nested scopes/global"""
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: params.add(a.vararg.arg)
    if a.kwarg: params.add(a.kwarg.arg)
    stores, glob = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): stores.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)): glob |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            aa = n.args
            params |= {x.arg for x in aa.posonlyargs + aa.args + aa.kwonlyargs}
            if isinstance(n, ast.FunctionDef): params.add(n.name)
        if isinstance(n, ast.ExceptHandler) and n.name: params.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names: params.add(x.asname or x.name.split(".")[0])
    return stores - params - glob

class Rename(ast.NodeTransformer):
    def __init__(s, m): s.m = m
    def visit_Name(s, n):
        if n.id in s.m: n.id = s.m[n.id]
        return n

def t_locals(tree, src):
    def go(body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                loc = scope_locals(n)
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "exec") for x in ast.walk(n)): continue
                m = {v: "zz_" + v for v in loc}
                n.body = [Rename(m).visit(b) for b in n.body]
            elif isinstance(n, ast.ClassDef): go(n.body)
    go(tree.body); return tree

class RetTmp(ast.NodeTransformer):
    def visit_Return(s, n):
        if n.value is None: return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]
def t_rettmp(tree, src): return RetTmp().visit(tree)

def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr, ast.Str if hasattr(ast,'Str') and False else ast.Await)) for x in ast.walk(e))
def stringy(e):
    return any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))
class Comm(ast.NodeTransformer):
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, (ast.Mult,)) and not stringy(n):
            n.left, n.right = n.right, n.left
        return n
def t_comm(tree, src): return Comm().visit(tree)

NUMFILES = ("kernels", "loss_kernels", "sumstats", "utils.py", "mgas_model", "sfh_model", "defaults_m")
class Sub(ast.NodeTransformer):
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Sub) and not stringy(n):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n
def t_sub(tree, src):
    if "h5py" in src or "os.path" in src: return tree
    return Sub().visit(tree)

class IfSwap(ast.NodeTransformer):
    def visit_If(s, n):
        s.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
    def visit_IfExp(s, n):
        s.generic_visit(n); return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
def t_ifswap(tree, src): return IfSwap().visit(tree)

class Comp(ast.NodeTransformer):
    """[e for x in it] assigned to a name -> loop"""
    def visit_Assign(s, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and s.infn:
            g = n.value.generators[0]; t = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(n.value)): return n
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [n.value.elt], []))]
            for c in g.ifs: body = [ast.If(c, body, [])]
            return [ast.Assign(n.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return n
    infn = 0
    def visit_FunctionDef(s, n):
        s.infn += 1; s.generic_visit(n); s.infn -= 1; return n
def t_comp(tree, src): return Comp().visit(tree)

class Loop(ast.NodeTransformer):
    """for x in list-ish -> for i in range(len()) is unsafe for iterators: only for Name iterables bound to lists; for range(n) -> while"""
    k = 0
    def visit_For(s, n):
        s.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
           and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(n)):
            Loop.k += 1; c = "cnt_%d" % Loop.k; m = "lim_%d" % Loop.k
            st = lambda v: ast.Name(v, ast.Store()); ld = lambda v: ast.Name(v, ast.Load())
            return [ast.Assign([st(m)], n.iter.args[0]), ast.Assign([st(c)], ast.Constant(0)),
                    ast.While(ast.Compare(ld(c), [ast.Lt()], [ld(m)]),
                              [ast.Assign([st(n.target.id)], ld(c))] + n.body + [ast.AugAssign(st(c), ast.Add(), ast.Constant(1))], [])]
        return n
def t_loop(tree, src): return Loop().visit(tree)

def t_helper(tree, src):
    """body of every plain module-level function moved to a helper called with the same args"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            a = n.args
            h = ast.FunctionDef("impl_of_" + n.name, copy.deepcopy(a), n.body, [], None)
            for x in h.args.posonlyargs + h.args.args + h.args.kwonlyargs: x.annotation = None
            h.args.defaults = []; h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
            call = ast.Call(ast.Name(h.name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            n.body = [ast.Return(call)]
            out += [h, n]
        else: out.append(n)
    tree.body = out; return tree

class Pow(ast.NodeTransformer):
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n
def t_pow(tree, src): return Pow().visit(tree)

class Where(ast.NodeTransformer):
    def visit_Call(s, n):
        s.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "jnp"):
            if f.attr == "where" and len(n.args) == 3:
                return ast.Call(f, [ast.Call(ast.Attribute(f.value, "logical_not", ast.Load()), [n.args[0]], []), n.args[2], n.args[1]], [])
            if f.attr == "clip" and len(n.args) == 3 and not n.keywords and not any(isinstance(a, ast.Constant) and a.value is None for a in n.args):
                g = lambda w, *a: ast.Call(ast.Attribute(f.value, w, ast.Load()), list(a), [])
                return g("minimum", g("maximum", n.args[0], n.args[1]), n.args[2])
            if f.attr == "mean" and len(n.args) == 1 and not n.keywords and False: pass
        return n
def t_where(tree, src): return Where().visit(tree)

class Aug(ast.NodeTransformer):
    """anonymous operands: f(g(x)) -> t = g(x); f(t) in simple assignments/returns"""
    k = 0
    def hoist(s, v):
        pre = []
        if isinstance(v, ast.Call):
            for i, a in enumerate(v.args):
                if isinstance(a, (ast.Call, ast.BinOp)):
                    Aug.k += 1; t = "arg_%d" % Aug.k
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a)); v.args[i] = ast.Name(t, ast.Load())
                elif isinstance(a, (ast.Starred,)): break
        elif isinstance(v, ast.BinOp):
            for w in ("left", "right"):
                a = getattr(v, w)
                if isinstance(a, (ast.Call, ast.BinOp)):
                    Aug.k += 1; t = "arg_%d" % Aug.k
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a)); setattr(v, w, ast.Name(t, ast.Load()))
                elif not isinstance(a, (ast.Constant, ast.Name)): break
        return pre
    infn = 0
    def visit_FunctionDef(s, n):
        s.infn += 1; s.generic_visit(n); s.infn -= 1; return n
    def visit_Assign(s, n):
        return s.hoist(n.value) + [n] if s.infn else n
    def visit_Return(s, n):
        return (s.hoist(n.value) + [n]) if n.value is not None else n
def t_hoist(tree, src): return Aug().visit(tree)

def t_unparse(tree, src): return tree

class Pos(ast.NodeTransformer):
    pass
def t_kwcalls(tree, src):
    """positional -> keyword for calls of same-module functions that are not decorated"""
    sigs = {n.name: n.args for n in tree.body if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg and not n.args.posonlyargs}
    multi = [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]
    class K(ast.NodeTransformer):
        def visit_Call(s, n):
            s.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in sigs and multi.count(n.func.id) == 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = sigs[n.func.id].args
                if len(n.args) <= len(a):
                    n.keywords = [ast.keyword(p.arg, v) for p, v in zip(a, n.args)] + n.keywords; n.args = []
            return n
    return K().visit(tree)

class Unpack(ast.NodeTransformer):
    """a, b = f() -> t = f(); a = t[0]; b = t[1] (only calls/names)"""
    k = 0
    infn = 0
    def visit_FunctionDef(s, n):
        s.infn += 1; s.generic_visit(n); s.infn -= 1; return n
    def visit_Assign(s, n):
        if s.infn and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, (ast.Call,)) and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            if isinstance(n.value.func, ast.Name) and n.value.func.id in ("zip", "map"): return n
            Unpack.k += 1; t = "tup_%d" % Unpack.k
            return [ast.Assign([ast.Name(t, ast.Store())], n.value)] + [ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)]
        return n
def t_unpack(tree, src): return Unpack().visit(tree)

def t_imports(tree, src):
    """numpy -> np2 alias, jnp -> jaxnp"""
    m = {}
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                if x.asname in ("np", "jnp", "jran", "nn"): m[x.asname] = "alias_" + x.asname; x.asname = m[x.asname]
    return Rename(m).visit(tree)

class Parens(ast.NodeTransformer):
    """a*b/c -> a/(c/b)? no. e1 + (e2 + e3) reassociation: (a+b)+c -> a+(b+c)"""
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Add) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Add) and not stringy(n):
            return ast.BinOp(n.left.left, ast.Add(), ast.BinOp(n.left.right, ast.Add(), n.right))
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) and not stringy(n):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        return n
def t_assoc(tree, src):
    if "os.path" in src: return tree
    return Parens().visit(tree)

def t_noop(tree, src):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            n.body.insert(k, ast.parse("_unused_marker = (1, 2)").body[0])
    return tree

def t_order(tree, src):
    """swap adjacent independent simple assignments"""
    def names(e, ctx):
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef): continue
        b = fn.body; i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in x.targets) for x in (p, q)):
                sp, sq, lp, lq = names(p, ast.Store), names(q, ast.Store), names(p, ast.Load), names(q, ast.Load)
                if not (sp & sq or sp & lq or sq & lp) and not ("open" in ast.dump(p) + ast.dump(q)) and "append" not in ast.dump(p) + ast.dump(q):
                    b[i], b[i + 1] = q, p; i += 2; continue
            i += 1
    return tree

def t_privates(root):
    """rename every underscore-prefixed module-level function that no test file mentions"""
    tests = ""; srcs = {}
    for d, ds, fs in os.walk(root):
        if "/.git" in d: continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f); s = open(p).read()
                if "/tests" in p: tests += s
                else: srcs[p] = s
    names = set()
    for p, s in srcs.items():
        if "/diffstar/" not in p: continue
        for n in ast.parse(s).body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__") and not re.search(r"\b%s\b" % n.name, tests): names.add(n.name)
            if isinstance(n, ast.Assign) and False: pass
    print(len(names), sorted(names))
    for p, s in srcs.items():
        t = s
        for n in names: t = re.sub(r"\b%s\b" % re.escape(n), n + "_renamed", t)
        if t != s: open(p, "w").write(t)

if __name__ == "__main__":
    name, root = sys.argv[1:]
    if name == "privates": t_privates(root); sys.exit()
    n = 0
    for p in files(root):
        src = open(p).read(); tree = ast.parse(src)
        ref = ast.unparse(tree)
        tree = globals()["t_" + name](tree, src); ast.fix_missing_locations(tree)
        out = ast.unparse(tree)
        n += out != ref
        open(p, "w").write(out + "\n")
    print(name, n, "files changed")
