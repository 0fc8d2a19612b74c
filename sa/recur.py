"""Loops of symbolic length, as recurrences.

The loop body is given values once, with place-holders for what it carries from one
iteration to the next; each carried value is then put in closed form (constant, delayed
value, running sum/product/extremum, array filled element by element) or, failing that,
kept as one opaque recurrence node that two loops share only if their bodies agree.
"""

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyError
from .terms import Poly, Undecided, P
from .interp import (
    NT, Frame, MapSeq, Opq, Phi, SymSeq, Brk, Cont, Ret, get_state, set_state, map_value, subst_value, drop_cont,
)
from .prims import arr, term_key


class Carry:
    def __init__(self, k, init):
        self.k = k
        self.name = "carry.%d" % k
        self.init = init if isinstance(init, Arr) else P(init)
        if isinstance(init, Arr):
            self.ph = A.build(init.shape, lambda idx: T.var(self.name, *[P(i) for i in idx]), init.dtype, init.jax)
        else:
            self.ph = T.var(self.name)
        self.new = None
        self.at = None
        self.final = None


def mentions(p, names):
    return any(a.kind == "var" and a.args[0] in names for a in p.free)


def val_mentions(v, names):
    if isinstance(v, Arr):
        return any(mentions(p, names) for p in v.data.values())
    return mentions(P(v), names)


def repl_map(solved):
    """fa replacing solved place-holders by their values at the current iteration"""
    d = {c.name: c for c in solved}

    def fa(a):
        if a.kind == "var" and a.args[0] in d:
            c = d[a.args[0]]
            idx = [T.rewrite(x, fa) for x in a.args[2:]]
            if isinstance(c.at, Arr):
                return c.at.get([int(T.cval(x)) if T.cval(x) is not None else x for x in idx])
            return c.at
        return None

    return fa


def apply_fa(v, fa):
    if isinstance(v, Arr):
        return Arr(v.shape, {k: T.rewrite(p, fa) for k, p in v.data.items()}, v.dtype, v.jax)
    return T.rewrite(P(v), fa)


def sub_i(v, ia, e):
    return subst_value(v if isinstance(v, Arr) else P(v), {ia: P(e)})


def solve(n, i, carries):
    """fill in c.at (value entering iteration i) and c.final for every carry"""
    ia = T.single_atom(i)
    todo = list(carries)
    solved = []
    names = {c.name for c in carries}
    # invariant carries
    progress = True
    while todo and progress:
        progress = False
        for c in list(todo):
            others = {x.name for x in todo if x is not c}
            new = apply_fa(c.new, repl_map(solved)) if solved else c.new
            if val_mentions(new, others):
                continue
            r = solve_one(n, i, ia, c, new)
            if r is None:
                continue
            c.at, c.final = r
            todo.remove(c)
            solved.append(c)
            progress = True
    if todo:
        opaque(n, i, ia, todo, solved)
    return carries


def opaque(n, i, ia, todo, solved):
    key = []
    for j, c in enumerate(todo):
        new = apply_fa(c.new, repl_map(solved)) if solved else c.new
        c.new2 = new
    ren = {c.name: "rc.%d" % j for j, c in enumerate(todo)}

    def fa(a):
        if a.kind == "var" and a.args[0] in ren:
            return T.var(ren[a.args[0]], *[T.rewrite(x, fa) for x in a.args[2:]])
        return None

    for c in todo:
        body = apply_fa(c.new2, fa)
        lam = A.build((n,) + A.shape_of(body), lambda idx, body=body: T.subst(A.sget(body, idx[1:]), {ia: P(idx[0])}), "f", True)
        key.append((term_key(lam), term_key(c.init)))
    key = tuple(key)
    for j, c in enumerate(todo):

        def val(e, j=j, c=c):
            if isinstance(c.init, Arr):
                return A.build(c.init.shape, lambda idx: T.app("rec", key, P(j), P(e), *[P(x) for x in idx]), c.init.dtype, c.init.jax)
            return T.app("rec", key, P(j), P(e))

        c.at, c.final = val(i), val(n)


def close_form(n, i, ia, f):
    """(value at iteration i, final value) from f(count)"""
    return f(i), f(P(n))


def solve_one(n, i, ia, c, new):
    me = {c.name}
    if isinstance(c.ph, Arr):
        return solve_array(n, i, ia, c, new)
    if isinstance(new, Arr):
        raise Undecided("loop variable changes shape")
    g = new
    if g is c.ph:
        return c.init, c.init
    if not mentions(g, me):
        at = T.ite(T.lt(i, T.ONE), c.init, T.subst(g, {ia: T.sub(i, T.ONE)}))
        return at, T.subst(g, {ia: T.sub(P(n), T.ONE)})
    d = T.sub(g, c.ph)
    if not mentions(d, me):
        f = lambda m: T.add(c.init, T.tsum(m, lambda j: T.subst(d, {ia: P(j)})))
        return close_form(n, i, ia, f)
    return extremum(n, i, ia, c, g, c.ph, c.init, me)


def extremum(n, i, ia, c, g, ph, init, me):
    a = T.single_atom(ph)
    q = T.div(g, ph)
    if not mentions(q, me):
        f = lambda m: T.mul(init, T.treduce("prod", m, lambda j: T.subst(q, {ia: P(j)})))
        return close_form(n, i, ia, f)
    # running maximum / minimum: g == max(ph, h) for h = g at a very low / high ph
    for kind, op, ext in (("redmax", T.tmax, T.neg(T.INF)), ("redmin", T.tmin, T.INF)):
        try:
            h = T.subst(g, {a: ext})
        except Undecided:
            continue
        if mentions(h, me):
            continue
        if T.equal(op(ph, h), g):
            f = lambda m, kind=kind, op=op, h=h: op(init, T.treduce(kind, m, lambda j: T.subst(h, {ia: P(j)})))
            at = T.ite(T.lt(i, T.ONE), init, f(i))
            return at, f(P(n))
    return None


def solve_array(n, i, ia, c, new):
    me = {c.name}
    if not isinstance(new, Arr) or not (len(new.shape) == len(c.ph.shape) and all(A.same_dim(x, y) for x, y in zip(new.shape, c.ph.shape))):
        raise Undecided("loop array changes shape")
    if all(new.data[k] is c.ph.data[k] for k in new.data):
        return c.init, c.init
    if not val_mentions(new, me):
        first = T.lt(i, T.ONE)
        prev = sub_i(new, ia, T.sub(i, T.ONE))
        at = A.emap(lambda x, y: T.ite(first, x, y), c.init, prev, dtype=new.dtype)
        return at, sub_i(new, ia, T.sub(P(n), T.ONE))
    d = {k: T.sub(new.data[k], c.ph.data[k]) for k in new.data}
    if not any(mentions(p, me) for p in d.values()):
        da = Arr(new.shape, d, "f", new.jax)

        def f(m):
            return A.build(new.shape, lambda idx: T.add(c.init.get(idx), T.tsum(m, lambda j: T.subst(da.get(idx), {ia: P(j)}))), new.dtype, c.init.jax)

        return f(i), f(P(n))
    for pos in range(new.ndim):
        if A.unrolled(new.shape[pos]):
            continue
        r = filled(n, i, ia, c, new, pos)
        if r is not None:
            return r
    return elementwise(n, i, ia, c, new)


def elementwise(n, i, ia, c, new):
    """every element is its own recurrence (e.g. a vector running maximum)"""
    me = {c.name}
    ats, fins = {}, {}
    for k, p in new.data.items():
        ph = c.ph.data[k]
        rest = T.subst(p, {T.single_atom(ph): T.ZERO})
        if mentions(rest, me):
            return None
        idx, pos = [], 0
        r = extremum(n, i, ia, c, p, ph, c.init.data[k], me)
        if r is None:
            return None
        ats[k], fins[k] = r
    return Arr(new.shape, ats, new.dtype, c.init.jax), Arr(new.shape, fins, new.dtype, c.init.jax)


def filled(n, i, ia, c, new, pos):
    """iteration i overwrites the slice at position i + off along axis `pos`"""
    nd = new.ndim
    xa = A.ci_atom(nd - 1 - pos, new.shape[pos])
    x = T.of_atom(xa)
    off = None
    for o in (0, 1, 2, -1, -2, -3):
        w = T.add(i, T.const(o))
        e = T.fresh_idx(P(T.dim("any")), "e")
        after = {xa: T.add(T.add(w, T.ONE), e)}
        before = {xa: T.sub(T.sub(w, T.ONE), e)}
        good = True
        for k, p in new.data.items():
            ph = c.ph.data[k]
            if T.subst(p, after) is not T.subst(ph, after) or T.subst(p, before) is not T.subst(ph, before):
                good = False
                break
        if good:
            off = o
            break
    if off is None:
        off = solve_offset(new, c, i, ia, xa, pos)
        if off is None:
            return None
    w = T.add(i, P(off))
    me = {c.name}
    axis_arg = 2 + pos
    # value written at iteration i (still in terms of the array's own entries)
    val = {k: T.subst(p, {xa: w}) for k, p in new.data.items()}

    def init_at(idx):
        return c.init.get([int(T.cval(q)) if T.cval(q) is not None else q for q in idx])

    def own(a):
        """own entries not yet overwritten when iteration i runs"""
        if a.kind == "var" and a.args[0] == c.name:
            idx = list(a.args[2:])
            lo, hi = T.lin_bounds(T.sub(idx[pos], w))
            if lo is not None and lo >= 0:
                return init_at(idx)
            if ia not in idx[pos].free and T.cval(idx[pos]) is not None and T.cval(idx[pos]) < off_low(off):
                return init_at(idx)
        return None

    val = {k: T.rewrite(p, own) for k, p in val.items()}
    if any(mentions(p, me) for p in val.values()):
        # linear recurrence  a[i+off] = a[i+off-1] + d(i)
        d = {}
        for k, p in val.items():
            prev = T.subst(c.ph.data[k], {xa: T.sub(w, T.ONE)})
            q = T.sub(p, prev)
            if mentions(q, me):
                return None
            d[k] = q

        def value(k, full, j):
            s = T.sub(w, T.ONE)
            start = [0] * nd
            base = T.subst(c.init.data[k], {xa: T.subst(s, {ia: T.ZERO})})
            dk = T.subst(d[k], full)
            base = T.subst(base, full)
            return T.add(base, T.tsum(T.add(j, T.ONE), lambda m: T.subst(dk, {ia: P(m)})))

    else:

        def value(k, full, j):
            return T.subst(T.subst(val[k], full), {ia: j})

    def arr_after(m):
        out = {}
        for k, p in c.init.data.items():
            j = T.sub(x, P(off))
            v = value(k, {}, j)
            inside = T.b_and(T.le(T.ZERO, j), T.lt(j, P(m)))
            out[k] = T.ite(inside, v, p)
        return Arr(new.shape, out, new.dtype if new.dtype == "f" else c.init.dtype, c.init.jax)

    return arr_after(i), arr_after(P(n))


def off_low(off):
    v = T.cval(P(off))
    return v if v is not None else T.ZERO


def solve_offset(new, c, i, ia, xa, pos):
    """find a symbolic offset o with the write at i + o, from the equality tests in the body"""
    x = T.of_atom(xa)
    for p in new.data.values():
        for a in T.all_atoms(p):
            if a.kind in ("eq", "eq0") and xa in a.free and ia in a.free:
                q = T.P(a.args[0]) if len(a.args) == 1 else T.sub(a.args[0], a.args[1])
                for s in (1, -1):
                    o = T.sub(T.add(T.scale(q, s), x), i) if s == -1 else T.sub(T.sub(x, q), i)
                    if xa not in o.free and ia not in o.free:
                        return o
    return None


# ------------------------------------------------------------------ scan
def scan(ip, f, init, item, n):
    i = T.fresh_idx(P(n), "l")
    carries = []

    def mk(v):
        c = Carry(len(carries), arr(v))
        carries.append(c)
        return c.ph

    from .prims_jax import tree_map, leaves

    ph = tree_map(mk, init)
    r = ip.call(f, [ph, item(i)])
    nc, y = ip.iterate(r, 2)
    new = leaves(nc)
    if len(new) != len(carries):
        raise PyError("TypeError", "scan body changes the carry structure")
    for c, v in zip(carries, new):
        c.new = arr(v)
        if isinstance(c.init, Arr) != isinstance(c.new, Arr) and not (isinstance(c.new, Poly)):
            raise PyError("TypeError", "scan body changes the carry type")
    solve(n, i, carries)
    it = iter(carries)
    fin = tree_map(lambda v: next(it).final, init)
    fa = repl_map(carries)
    ys = tree_map(lambda v: A.from_symbolic(n, i, apply_fa(arr(v), fa)), y)
    return fin, ys


# ------------------------------------------------------------------ for loops
def numeric(v):
    if isinstance(v, (bool, str)) or v is None:
        return isinstance(v, bool)
    return A.is_num(v) or (isinstance(v, Arr) and v.dtype in ("f", "i", "b", "key"))


def carriable(v):
    if isinstance(v, (tuple, NT)):
        return all(carriable(x) for x in (v.vals if isinstance(v, NT) else v))
    return numeric(v)


def run_body(ip, st, fr, x):
    ip.push()
    try:
        ip.touch(fr)
        ip.assign(st.target, x, fr)
        sig = drop_cont(ip.block(st.body, fr))
    finally:
        states = ip.pop()
    if sig is not None:
        raise Undecided("early exit from a loop of symbolic length")
    return states


def for_loop(ip, st, fr, n, item):
    i = T.fresh_idx(P(n), "l")
    ia = T.single_atom(i)
    saved = (list(ip.effects), list(ip.keylog))
    states = run_body(ip, st, fr, item(i))
    ip.effects, ip.keylog = saved
    # what is carried
    carries = []
    spots = []  # (object, key, value before, placeholder value)
    lists = []
    localvars = {}
    for oid, (obj, after) in states.items():
        before = get_state(obj)
        if isinstance(obj, Frame):
            for k, v in after.items():
                if k in before and before[k] is not v:
                    if k in before and isinstance(v, type(before[k])) and not isinstance(v, (Arr, Poly, tuple, list, dict, NT)) and v == before[k]:
                        continue
                    spots.append((obj, k, before[k]))
                elif k not in before and obj is fr:
                    localvars[k] = True
        elif isinstance(obj, Arr):
            spots.append((obj, None, obj))
        elif isinstance(obj, list):
            if len(after) > len(before) and all(x is y for x, y in zip(after, before)):
                lists.append(obj)
            elif len(after) == len(before):
                for q in range(len(before)):
                    if after[q] is not before[q]:
                        spots.append((obj, q, before[q]))
            else:
                raise Undecided("list shrinks in a loop")
        elif isinstance(obj, dict):
            for k, v in after.items():
                if k not in before:
                    localvars[("dict", id(obj), k)] = True
                elif before[k] is not v:
                    spots.append((obj, k, before[k]))
        else:
            raise Undecided("loop changes %r" % (obj,))

    def ph_of(v):
        if isinstance(v, (tuple,)):
            return tuple(ph_of(x) for x in v)
        if isinstance(v, NT):
            return NT(v.cls, [ph_of(x) for x in v.vals])
        if not numeric(v):
            return v
        c = Carry(len(carries), v)
        carries.append(c)
        return c.ph

    plan = []
    targets = target_names(st.target)
    for obj, k, before in spots:
        if isinstance(obj, Frame) and k in targets:
            plan.append((obj, k, before, None, "target"))
            continue
        if not carriable(before):
            plan.append((obj, k, before, None, "last"))
            continue
        c0 = len(carries)
        ph = ph_of(before)
        plan.append((obj, k, before, ph, (c0, len(carries))))
    # second pass, with placeholders
    ip.push()
    for obj, k, before, ph, how in plan:
        if ph is None:
            continue
        if isinstance(obj, Frame):
            ip.touch(obj)
            obj.vars[k] = ph
        elif isinstance(obj, Arr):
            ip.touch(obj)
            obj._data = dict(ph.data)
            obj.ver += 1
        else:
            ip.touch(obj)
            obj[k] = ph
    states = run_body(ip, st, fr, item(i))
    ip.pop()
    after = {oid: s for oid, (o, s) in states.items()}

    def new_of(obj, k, ph):
        s = after.get(id(obj))
        if s is None:
            return ph
        if isinstance(obj, Arr):
            return Arr(obj.shape, s[0], obj.dtype, obj.jax)
        if isinstance(obj, list):
            return s[k]
        return s.get(k, ph)

    def pair(ph, v):
        if isinstance(ph, tuple):
            for x, y in zip(ph, ip.iterate(v, len(ph))):
                pair(x, y)
        elif isinstance(ph, NT):
            for x, y in zip(ph.vals, ip.iterate(v, len(ph.vals))):
                pair(x, y)
        elif numeric(ph):
            name = None
            for c in carries:
                if c.ph is ph:
                    c.new = arr(v)

    for obj, k, before, ph, how in plan:
        if ph is not None:
            pair(ph, new_of(obj, k, ph))
    for c in carries:
        if c.new is None:
            c.new = c.ph
        if isinstance(c.new, Arr) and not isinstance(c.ph, Arr):
            raise Undecided("loop variable becomes an array")
        if isinstance(c.ph, Arr) and not isinstance(c.new, Arr):
            raise Undecided("loop array becomes a scalar")
    solve(n, i, carries)
    fa = repl_map(carries)
    last = T.sub(P(n), T.ONE)

    def fin_value(v):
        """value left after the last iteration"""
        def g(x):
            y = apply_fa(x, fa)
            return sub_i(y, ia, last)

        return map_value(v, g)

    fins = {c.name: c for c in carries}

    def final_of(ph):
        if isinstance(ph, tuple):
            return tuple(final_of(x) for x in ph)
        if isinstance(ph, NT):
            return NT(ph.cls, [final_of(x) for x in ph.vals])
        for c in carries:
            if c.ph is ph:
                return c.final
        return ph

    for obj, k, before, ph, how in plan:
        if how == "target":
            ip.touch(obj)
            obj.vars[k] = fin_value(after[id(obj)][k])
            continue
        if how == "last":
            s = after.get(id(obj))
            v = s.get(k) if not isinstance(obj, list) else s[k]
            ip.touch(obj)
            if isinstance(v, (SymSeq, MapSeq, list)) and v is before:
                continue
            v = fin_value(v)
            if isinstance(obj, Frame):
                obj.vars[k] = v
            else:
                obj[k] = v
            continue
        f = final_of(ph)
        ip.touch(obj)
        if isinstance(obj, Frame):
            obj.vars[k] = f
        elif isinstance(obj, Arr):
            A.store(obj, Arr(obj.shape, f.data, obj.dtype, obj.jax)) if obj.view_of is not None else A.set_data(obj, dict(f.data))
        else:
            obj[k] = f
    # loop-local names keep their last value
    s = after.get(id(fr))
    if s is not None:
        ip.touch(fr)
        for k, v in s.items():
            if k in localvars or k in targets:
                try:
                    fr.vars[k] = fin_value(v)
                except Undecided:
                    fr.vars[k] = Opq("loop-local")
    for oid, (obj, s) in states.items():
        if isinstance(obj, dict):
            for k, v in s.items():
                if ("dict", id(obj), k) in localvars:
                    ip.touch(obj)
                    obj[k] = fin_value(v)
    for obj in lists:
        s = after[id(obj)]
        before = get_state(obj)
        grown = s[len(before):]

        def elem(v):
            return map_value(v, lambda x: apply_fa(x, fa)) if not isinstance(v, (int, str)) else v

        if len(grown) != 1:
            raise Undecided("several appends per iteration")
        if before:
            raise Undecided("append to a non-empty list in a symbolic loop")
        e = grown[0]
        if isinstance(e, (int,)) and not isinstance(e, bool):
            e = P(e)
        seq = SymSeq(n, i, elem(e))
        hit = False
        f2 = fr
        while f2 is not None:
            for k, v in list(f2.vars.items()):
                if v is obj:
                    ip.touch(f2)
                    f2.vars[k] = seq
                    hit = True
                elif isinstance(v, dict):
                    for q, w in list(v.items()):
                        if w is obj:
                            ip.touch(v)
                            v[q] = seq
                            hit = True
            f2 = f2.parent
        if not hit:
            raise Undecided("list grown in a loop is not bound to a name")
    if st.orelse:
        return ip.block(st.orelse, fr)
    return None


def target_names(t):
    import ast

    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
