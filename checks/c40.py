"""C40: the gradient-descent fallback is interpreted for one to three requested steps, zero or one warm-up, every place
and kind of failure (parameters, loss or gradient not finite) and every ordering of the recorded losses; parameters,
losses and gradients stay symbols. Obligations: the optimiser's first step is the start, each later one its update with
the gradient of the step before; returned parameters and loss belong to the lowest recorded step; the record stops
before the failed step; the status is 1 exactly when all requested steps were recorded; a warm-up that ends in finite
parameters provides the start. The fitter calls the fallback exactly when the main optimiser does not converge."""

import itertools
from fractions import Fraction

from sa import arrays as A, interp as I, prims_np, terms as T
from sa.check import compare, vec
from sa.interp import NT, NTClass, Prim
from .c27 import FAILED, FU, RES, resolve
from .common import *

MIN_OBLIGATIONS = 100
LEVEL = "bounded"
NPAR = 2
KINDS = ("params", "loss", "grads")


class Steps:
    """what the loss function gives at each evaluation: steps[k] is None (all finite) or the kind that is not"""

    def __init__(self, ip, steps, ranks):
        self.ip, self.steps, self.ranks = ip, steps, ranks
        self.n, self.at, self.val = 0, [], {}

    def loss(self, ip, a, k):
        z, d = a[0], a[1]
        k = self.n
        self.n += 1
        self.data = d
        if k >= len(self.steps):
            raise T.Undecided("more evaluations of the loss than steps")
        p = T.app("loss", T.P(k), *[z.get([i]) for i in range(NPAR)])
        return p

    def finite(self, x):
        """step and kind of a quantity tested for being finite"""
        ls = [a for a in T.all_atoms(x) if a.kind == "app" and a.args[0] == "loss"]
        one = T.single_atom(x)
        outer = [a for a in ls]
        if one is not None and one in ls:
            k, kind = int(T.cval(T.P(one.args[1]))), "loss"
        elif one is not None and one.kind == "app" and one.args[0] in ("D", "Dat", "dpart"):
            k, kind = max(int(T.cval(T.P(a.args[1]))) for a in ls), "grads"
        else:
            # parameters of the step about to be evaluated or just evaluated
            k, kind = 1 + max([int(T.cval(T.P(a.args[1]))) for a in ls], default=-1), "params"
        return k, kind

    def resolve(self, v):
        def fa(a):
            if a.kind == "app" and a.args[0] == "isfinite":
                k, kind = self.finite(T.P(a.args[1]))
                return T.ONE if k >= len(self.steps) or self.steps[k] != kind else T.ZERO
            if a.kind == "app" and a.args[0] == "isnan":
                k, kind = self.finite(T.P(a.args[1]))
                return T.ZERO if k >= len(self.steps) or self.steps[k] != kind else T.ONE
            return None
        num = {}
        v = I.map_value(v, lambda x: T.rewrite(x, fa) if isinstance(x, T.Poly) else A.emap(lambda p: T.rewrite(p, fa), x))

        def note(x):
            for a in T.all_atoms(x):
                if a.kind == "app" and a.args[0] == "loss":
                    num[a] = T.const(self.ranks[int(T.cval(T.P(a.args[1])))])
            return x
        I.map_value(v, lambda x: note(x) if isinstance(x, T.Poly) else A.emap(note, x))
        return resolve(v, num)


def with_steps(c, steps, ranks, f):
    s = Steps(c.ip, steps, ranks)
    truth = type(c.ip).truth
    c.ip.truth = lambda v: s.resolve(truth(c.ip, v))
    try:
        return s, f(Prim("loss", s.loss))
    finally:
        del c.ip.truth


def finished(steps):
    """number of steps recorded before the first failure"""
    return next((i for i, k in enumerate(steps) if k), len(steps))


def case(c, warm, main, ranks):
    """warm, main: the planned steps of the warm-up (if any) and of the final run"""
    W = FU + "jax_adam_wrapper_v2"
    p0, data, nw, nm = vec("p0", NPAR), I.Opq("loss_data"), finished(warm), finished(main)
    # evaluations made: those of the warm-up up to its failure, then those of the final run
    steps = warm[: nw + 1] + main
    first = len(warm[: nw + 1])
    small, large = T.var("step"), T.var("wstep")

    def code(loss):
        return c.call(W, loss, p0, data, len(main), n_warmup=1 if warm else 0, warmup_n_step=len(warm) or 50, step_size=small, warmup_step_size=large)

    def ref(loss):
        start = p0
        if warm:
            # the evaluation that fails is part of the trajectory, nothing after it is
            tr = c.call("spec.fit.trajectory", loss, p0, data, first, large)
            if nw:
                start = tr[min(range(nw), key=lambda i: ranks[i])][0]
        return c.call("spec.fit.trajectory", loss, start, data, min(nm + 1, len(main)), small)

    lab = "warm-up %s, steps %s, losses %s: " % (
        "/".join(k or "ok" for k in warm) or "none", "/".join(k or "ok" for k in main), ranks)
    s, got = with_steps(c, steps, ranks, code)
    got = [s.resolve(x) for x in c.ip.iterate(got, 5)]
    c.require(lab + "loss evaluated on the caller's data", s.data is data, where=W)
    s2, tr = with_steps(c, steps, ranks, ref)
    rec = [(s2.resolve(p), s2.resolve(v)) for p, v in tr[:nm]]
    if nm:
        p, v = rec[min(range(nm), key=lambda i: ranks[first + i])]
    else:
        p, v = s2.resolve(tr[0][0]), FAILED
    c.eq(lab + "best recorded parameters", got[0], p, where=W)
    c.eq(lab + "their loss", got[1], v, where=W)
    c.eq(lab + "recorded losses", got[2], A.build((nm,), lambda ix: T.pick(ix[0], tuple(T.P(x[1]) for x in rec)) if rec else T.ZERO, "f", False), where=W)
    c.eq(lab + "recorded parameters", got[3], A.build((nm, NPAR), lambda ix: T.pick(ix[0], tuple(x[0].get([ix[1]]) for x in rec)) if rec else T.ZERO, "f", False), where=W)
    c.eq(lab + "status", got[4], int(nm == len(main)), where=W)


def plans(n, kinds=KINDS):
    yield [None] * n
    for f in range(n):
        for k in kinds:
            yield [None] * f + [k] + [None] * (n - f - 1)


def rankings(n):
    return [list(p) for p in itertools.permutations(range(1, n + 1))]


def fallback(c):
    W = FU + "minimizer"
    loss, deriv, data, p0 = I.Opq("loss_func"), I.Opq("loss_deriv"), I.Opq("loss_data"), vec("p0", NPAR)
    seen = []

    def adam(ok):
        def f(ip, fn, args, kw):
            b = ip.bind(fn, args, kw)
            seen.append(b)
            return (vec("pa", NPAR), T.var("la"), vec("arr", T.dim("k")), vec("parr", T.dim("k"), NPAR), ok)
        return f

    for conv in (1, 0):
        for ok in (1, 0):
            calls = []

            def mini(ip, a, k):
                b = dict(zip(("fun", "x0", "args", "method", "jac"), a))
                b.update(k)
                calls.append(b)
                return NT(RES, [vec("x", NPAR), T.var("fun"), bool(conv)])
            del seen[:]
            c.ip.env_externals["scipy.optimize.minimize"] = mini
            c.ip.intrinsics[FU + "jax_adam_wrapper_v2"] = adam(ok)
            got = c.call(W, loss, deriv, p0, data, T.dim("nstep"))
            lab = "main optimiser %s, fallback %s: " % ("converges" if conv else "fails", "terminates" if ok else "stops early")
            b = calls[0] if len(calls) == 1 else {}
            c.require(lab + "main optimiser on the caller's problem", b.get("fun") is loss and b.get("jac") is deriv and b.get("x0") is p0
                      and isinstance(b.get("args"), tuple) and len(b["args"]) == 1 and b["args"][0] is data, where=W)
            c.require(lab + "fallback %s" % ("not used" if conv else "used once"), len(seen) == (not conv), where=W)
            for b in seen:
                c.require(lab + "fallback on the caller's problem", b.get("loss_func") is loss and b.get("params_init") is p0
                          and b.get("loss_data") is data and T.equal(T.P(b.get("n_step")), T.dim("nstep")), where=W)
            want = (vec("x", NPAR), T.var("fun"), 1) if conv else (vec("pa", NPAR), T.var("la"), 0 if ok else -1)
            c.eq(lab + "parameters, loss and status", got, want, where=W)


def check(c):
    c.get(FU + "jax_adam_wrapper_v2")
    for n in (1, 2, 3):
        for main in plans(n):
            for r in rankings(finished(main)):
                c.attempt("jax_adam_wrapper_v2", lambda: case(c, [], main, r))
    for n in (1, 2):
        for warm in plans(n, ("loss", "grads")):
            for main in plans(2, ("loss", "grads")):
                nw = finished(warm)
                for r in rankings(nw):
                    for q in rankings(finished(main)):
                        c.attempt("jax_adam_wrapper_v2", lambda: case(c, warm, main, r + [9] * (nw < n) + q))
    c.attempt("minimizer", lambda: fallback(c))
