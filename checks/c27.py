"""C27: the restart loop is interpreted over every sequence of up to three attempt outcomes (a fit with a valid loss, a
fit with an invalid loss, no valid start within the allowed draws) and every ordering of the losses, the tolerance and
the value reported for failures; parameters, losses and tolerance stay symbols and only their order is known. Obligation
per case: the optimiser is started, on the caller's loss, gradient and data, at a draw around the caller's start whose
gradient is valid, and runs until a loss is within tolerance or the attempts are used up; parameters, loss and status
are those of the lowest valid attempt. The loop treats attempts alike, so three attempts show every relation between
an attempt, the best before it and its successor. Separately, a fit whose every attempt is invalid reports failure."""

import itertools
from fractions import Fraction

from sa import arrays as A, interp as I, prims_np, terms as T
from sa.check import compare, vec
from sa.interp import NT, NTClass, Prim
from .common import *

MIN_OBLIGATIONS = 900
LEVEL = "bounded"
FU = "diffstar.fitting_helpers.utils."
RES = NTClass("OptimizeResult", ("x", "fun", "success"))
FAILED = Fraction("999.99")
NPAR = 2
DRAWS = 1001


def resolve(v, num):
    """v with every comparison of the atoms in num decided (the numbers stand for their order only)"""
    def at(p):
        return T.subst(p, num)

    def fa(a):
        if a.kind != "pw":
            return None
        base, cuts, pieces = a.args
        if len(base.terms) > 2:
            raise T.Undecided("comparison is not between two losses: %s" % T.fmt(base, 3))
        b = T.cval(at(base))
        if b is None:
            return None
        k = 0
        for cut, side in cuts:
            cut = T.cval(T.P(cut))
            if b > cut or (b == cut and side == 1):
                k += 1
        return resolve_p(pieces[k])

    def resolve_p(p):
        return T.rewrite(p, fa)
    return I.map_value(v, lambda x: resolve_p(x) if isinstance(x, T.Poly) else A.emap(resolve_p, x))


class Scene:
    """the outcomes of a run of the fitter: which draws have a gradient, what each fit ends with"""

    def __init__(self, c, kinds):
        self.c, self.kinds = c, kinds
        self.fits, self.draws, self.starts = 0, {}, []
        bad, d = set(), 0
        for k in kinds:
            if k == "bad":
                bad |= set(range(d, d + DRAWS))
                d += DRAWS
            else:
                d += 1
        self.bad, self.total = bad, d
        self.ends = [(i, k) for i, k in enumerate(kinds) if k != "bad"]

    def draw_no(self, x):
        """index of the random draw an array of parameters comes from"""
        p = x.get([0])
        for a in T.all_atoms(p):
            if a.kind == "app" and a.args[0] == "hidden_rng":
                return int(T.cval(T.P(a.args[1]))) - self.first
        raise T.Undecided("start that is not a random draw")

    def gradient(self, ip, a, k):
        d = self.draw_no(a[0])
        val = T.NAN if d in self.bad else T.var("grad", T.P(d))
        prims_np.FINITE.update(("grad", "loss0", "loss1", "loss2", "tol", "p0", "sigma"))
        return A.build((NPAR,), lambda ix: val, "f", False)

    def minimize(self, ip, a, k):
        b = dict(zip(("fun", "x0", "args", "method", "jac"), a))
        b.update(k)
        self.starts.append((b, self.draw_no(b["x0"])))
        n = self.fits
        self.fits += 1
        if n >= len(self.ends):
            if self.bad:
                raise T.Undecided("more fits than attempts")
            return NT(RES, [vec("x%d" % n, NPAR), T.NAN, T.ONE])
        i, kind = self.ends[n]
        return NT(RES, [vec("x%d" % i, NPAR), T.var("loss%d" % i) if kind == "ok" else T.NAN, T.ONE])


def expected(kinds, num):
    """(number of attempts made, the best of them): ranks follow num"""
    done, i = [], 0
    while i < len(kinds):
        if done and min(x[0] for x in done) <= num["tol"]:
            break
        if kinds[i] != "nan":
            done.append((num["loss%d" % i], i) if kinds[i] == "ok" else (FAILED, i))
        i += 1
    return i, min(done)[1] if done else None


def cells(kinds):
    """representatives of the orderings of the losses of valid fits and the tolerance, all ties excluded"""
    names = ["tol"] + ["loss%d" % i for i, k in enumerate(kinds) if k == "ok"]
    for perm in itertools.permutations(names + [None]):
        z = perm.index(None)
        if perm.index("tol") < z:
            yield {x: FAILED + (i - z) for i, x in enumerate(perm) if x}


def case(c, kinds, num):
    W = FU + "minimizer_wrapper"
    sc = Scene(c, kinds)
    loss, data = Prim("loss", lambda ip, a, k: T.app("loss")), I.Opq("loss_data")
    grad = Prim("loss_deriv", sc.gradient)
    p0, sg = vec("p0", NPAR), T.var("sigma")
    atoms = {T.single_atom(T.var(k)): T.const(v) for k, v in num.items()}
    c.ip.env_externals["scipy.optimize.minimize"] = sc.minimize
    c.ip.while_limit = DRAWS + 20
    sc.first = getattr(c.ip, "nprand", 0) + 1
    truth = type(c.ip).truth
    c.ip.truth = lambda v: resolve(truth(c.ip, v), atoms)
    try:
        got = c.ip.iterate(c.call(W, loss, grad, (p0, sg), data, loss_tol=T.var("tol"), max_iter=len(kinds)), 3)
    finally:
        del c.ip.truth
    got = resolve(tuple(got), atoms)
    tried, win = expected(kinds, num)
    lab = "outcomes %s, losses %s: " % ("/".join(kinds[:tried]), " < ".join(sorted(num, key=num.get)))
    nfit = sum(k != "bad" for k in kinds[:tried])
    c.require(lab + "number of fits", sc.fits == nfit, "%d fits run, %d expected" % (sc.fits, nfit), where=W)
    ok = all(d not in sc.bad and b.get("fun") is loss and b.get("jac") is grad and b.get("method") == "L-BFGS-B"
             and isinstance(b.get("args"), tuple) and len(b["args"]) == 1 and b["args"][0] is data for b, d in sc.starts)
    c.require(lab + "fits start from valid draws, on the caller's loss, gradient and data", ok, where=W)
    for b, d in sc.starts:
        x = b["x0"].get([0])
        y = T.add(T.var("p0", T.ZERO), T.mul(sg, T.app("hidden", T.app("hidden_rng", T.P(d + sc.first)), T.ZERO)))
        c.require(lab + "fits start around the caller's start", T.equal(x, y), where=W)
    if win is None or kinds[win] == "bad":
        want = (p0, FAILED, -1)
    else:
        want = (vec("x%d" % win, NPAR), T.var("loss%d" % win), 1)
    c.eq(lab + "parameters, loss and status of the best attempt", got, want, where=W)
    return all(r[2] for r in c.results[-2:])


def endless(c):
    """a start is never found: the attempt must end all the same, as a failure"""
    W = FU + "minimizer_wrapper"
    sc = Scene(c, ())
    n = [0]

    def gradient(ip, a, k):
        n[0] += 1
        if n[0] > 5 * DRAWS:
            raise A.PyError("Endless", "still drawing after %d draws without a valid gradient" % n[0])
        return A.build((NPAR,), lambda ix: T.NAN, "f", False)
    c.ip.env_externals["scipy.optimize.minimize"] = sc.minimize
    c.ip.while_limit = 7 * DRAWS
    sc.first = getattr(c.ip, "nprand", 0) + 1
    p0, sg = vec("p0", NPAR), T.var("sigma")
    got = c.ip.iterate(c.call(W, Prim("loss", lambda ip, a, k: T.app("loss")), Prim("loss_deriv", gradient), (p0, sg),
                              I.Opq("loss_data"), loss_tol=T.const(1), max_iter=1), 3)
    c.eq("no draw has a valid gradient: the attempt ends as a failure", got[2], T.P(-1), where=W)
    c.ip.while_limit = DRAWS + 20


def check(c):
    c.get(FU + "minimizer_wrapper")
    c.attempt("minimizer_wrapper", lambda: endless(c))
    for n in (0, 1, 2, 3):
        for kinds in itertools.product(("ok", "nan", "bad"), repeat=n):
            for num in cells(kinds):
                if c.attempt("minimizer_wrapper", lambda: case(c, kinds, num)) is False and len([r for r in c.results if not r[2]]) > 10:
                    return
