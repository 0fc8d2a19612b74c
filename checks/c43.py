"""C43: value numbering of the utility routines against their defining formulas on symbolic inputs. Covariance and
correlation are composed both ways; the interpolant is evaluated at symbolic and at bracketing abscissae; the sigmoids
equal their closed forms, whose midpoint, bounds and monotonic sense are shown separately; broadcasting is evaluated
for every pattern of scalars and vectors."""

import itertools

from sa import arrays as A, interp as I, ranges as R, terms as T
from .common import *

U = "diffstar.utils."
DU = "diffstar.diffstarpop.utils."
SMALL = ({"g": 1, "n": 3, "k": 2},)
MIN_OBLIGATIONS = 260
at = lambda x, *q: A.getitem(x, q)[0] if q else T.P(x)
HALF = T.div(T.ONE, T.const(2))


def positive(name):
    return T.exp(V("ln_" + name))


def matrices(c):
    W1, W2 = DU + "covariance_from_correlation", DU + "correlation_from_covariance"
    for n in (1, 2, 3, 4):
        s = [positive("s%d" % i) for i in range(n)]
        sv = A.to_array(s, True)
        corr = vec("r", n, n)
        cov = c.call(W1, corr, sv)
        c.require("covariance: shape %d" % n, A.fmt_shape(cov.shape) == A.fmt_shape((n, n)), str(cov.shape), W1)
        for i, j in itertools.product(range(n), range(n)):
            c.eq("covariance %d: entry %d,%d is scaled by both spreads" % (n, i, j), at(cov, i, j), T.mul(T.mul(T.var("r", T.const(i), T.const(j)), s[i]), s[j]), where=W1)
        sym = [[T.ONE if i == j else V("r%d%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
        back = c.call(W2, c.call(W1, A.to_array(sym, True), sv))
        for i, j in itertools.product(range(n), range(n)):
            c.eq("correlation of covariance %d: entry %d,%d is recovered" % (n, i, j), at(back, i, j), sym[i][j], where=W2)
        # a covariance with positive diagonal
        cv = [[positive("d%d" % i) if i == j else V("c%d%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
        cr = c.call(W2, A.to_array(cv, True))
        for i in range(n):
            c.eq("correlation %d: unit diagonal %d" % (n, i), at(cr, i, i), T.ONE, where=W2)
        sd = A.to_array([T.exp(T.mul(HALF, V("ln_d%d" % i))) for i in range(n)], True)
        back = c.call(W1, cr, sd)
        for i, j in itertools.product(range(n), range(n)):
            c.eq("covariance of correlation %d: entry %d,%d is recovered" % (n, i, j), at(back, i, j), cv[i][j], where=W1)
        if n > 1:
            cv[0][1] = cv[1][0] = T.ZERO
            cr = c.call(W2, A.to_array(cv, True))
            c.eq("correlation %d: vanishing covariance is uncorrelated" % n, at(cr, 0, 1), T.ZERO, where=W2)


def interpolation(c):
    k, n, g = T.dim("k"), T.dim("n"), T.dim("g")
    xt, yt = vec("xt", k), vec("yt", k)

    def line(x, i, xs=lambda j: T.var("xt", j), ys=lambda j: T.var("yt", j)):
        lo = T.sub(i, T.ONE)
        return T.add(ys(lo), T.div(T.mul(T.sub(ys(i), ys(lo)), T.sub(x, xs(lo))), T.sub(xs(i), xs(lo))))

    W = U + "jax_np_interp"
    i = T.add(T.any_idx(T.sub(k, T.ONE)), T.ONE)
    lo = T.sub(i, T.ONE)
    c.eq("interpolant between the bracketing entries", T.P(c.call(W, V("x"), xt, yt, i)), line(V("x"), i), where=W)
    c.eq("interpolant at the lower entry", T.P(c.call(W, T.var("xt", lo), xt, yt, i)), T.var("yt", lo), where=W)
    c.eq("interpolant at the upper entry", T.P(c.call(W, T.var("xt", i), xt, yt, i)), T.var("yt", i), where=W)
    for m in range(2, 5):
        for h in range(1, m):
            got = c.call(W, V("x"), vec("xt", m), vec("yt", m), h)
            c.eq("interpolant, table of %d, interval %d" % (m, h), T.P(got), line(V("x"), T.const(h)), where=W)
    hi = A.build((n,), lambda ix: T.add(T.app("bracket", T.P(ix[0])), T.ONE), "i", True)
    many = [1, 3, 2]
    got = c.call(W, vec("x", 3), vec("xt", 4), vec("yt", 4), A.to_array([T.const(h) for h in many], True))
    for q, h in enumerate(many):
        c.eq("interpolants of several points, each in its own interval %d" % q, at(got, q), line(T.var("x", T.const(q)), T.const(h)), where=W)
    f = c.maybe(DU + "jax_np_interp_vmap")
    if f is not None:
        got = c.call(f, vec("x", 2), vec("xt", 2, 4), vec("yt", 4), A.to_array([T.const(3), T.const(1)], True))
        for q, h in enumerate((3, 1)):
            c.eq("interpolants of several haloes, own abscissae, shared ordinates %d" % q, at(got, q), line(T.var("x", T.const(q)), T.const(h), xs=lambda j: T.var("xt", T.const(q), j)), where=DU + "jax_np_interp_vmap")


def sigmoids(c):
    x, x0, k, lo = V("x"), V("x0"), V("k"), V("lo")
    hi = V("hi")
    arg = T.mul(k, T.sub(x, x0))
    logistic = T.add(lo, T.mul(T.sub(hi, lo), T.sigmoid(arg)))
    two = T.const(2)
    alg = T.add(lo, T.mul(T.sub(hi, lo), T.add(HALF, T.div(T.mul(HALF, arg), c_sqrt(c, T.add(T.ONE, T.mul(arg, arg)))))))
    forms = [(U + "_sigmoid", logistic), (DU + "_sigmoid", logistic), (U + "sigmoid_poly", alg)]
    for W, ref in forms:
        if c.maybe(W) is None:
            continue
        nm = W.rsplit(".", 1)[1] + (" (population)" if W.startswith(DU) else "")
        c.eq(nm + ": closed form", T.P(c.call(W, x, x0, k, lo, hi)), ref, where=W)
        c.eq(nm + ": midpoint at the transition", T.P(c.call(W, x0, x0, k, lo, hi)), T.mul(HALF, T.add(lo, hi)), where=W)
        up = T.add(lo, positive("step"))
        kk = positive("k")
        y = T.P(c.call(W, x, x0, kk, lo, up))
        if ref is logistic:
            low, high, d = T.sub(y, lo), T.sub(up, y), T.diff(y, T.single_atom(x))
        else:
            # by the closed form it is lo + step * s(k (x - x0)); s lies in (0, 1) where s (1 - s) > 0
            s = T.P(c.call(W, x, T.ZERO, T.ONE, T.ZERO, T.ONE))
            q = T.add(T.ONE, T.mul(x, x))
            c.eq(nm + ": unit form is between its limits", T.mul(s, T.sub(T.ONE, s)), T.div(T.ONE, T.mul(T.const(4), q)), where=W)
            low = high = T.div(T.ONE, q)
            d = T.diff(s, T.single_atom(x))
            c.eq(nm + ": unit form rises", T.mul(d, T.mul(q, c_sqrt(c, q))), HALF, where=W)
            d = HALF
        c.require(nm + ": not below its lower limit", R.nonneg(low, R.Env()), T.fmt(low)[:150], W)
        c.require(nm + ": not above its upper limit", R.nonneg(high, R.Env()), T.fmt(high)[:150], W)
        c.require(nm + ": rises from lower to upper limit", R.nonneg(d, R.Env()) and not T.is_zero(d), T.fmt(d)[:150], W)
    for W, s in ((U + "_inverse_sigmoid", U + "_sigmoid"), (DU + "_inverse_sigmoid", DU + "_sigmoid")):
        if c.maybe(W) is None or c.maybe(s) is None:
            continue
        y = c.call(s, x, x0, positive("k"), lo, T.add(lo, positive("step")))
        nm = W[len("diffstar."):]
        c.eq(nm + ": undoes the sigmoid", T.P(c.call(W, y, x0, positive("k"), lo, T.add(lo, positive("step")))), x, where=W)


def c_sqrt(c, p):
    return T.P(c.call("spec.model.root", p))


def broadcasting(c):
    W = U + "get_1d_arrays"
    n = T.dim("n")
    for m in (1, 2, 3):
        for pat in itertools.product("sv1", repeat=m):
            args = [V("s%d" % q) if p == "s" else vec("v%d" % q, n) if p == "v" else vec("u%d" % q, 1) for q, p in enumerate(pat)]
            size = n if "v" in pat else 1
            tag = "".join(pat)

            def one():
                r = c.ip.iterate(c.call(W, *args), None)
                c.require("broadcast %s: one array per argument" % tag, len(r) == m and all(len(x.shape) == 1 and A.same_dim(x.shape[0], size) for x in r), str([x.shape for x in r]), W)
                i = T.any_idx(n) if "v" in pat else T.ZERO
                for q, (p, x) in enumerate(zip(pat, r)):
                    want = V("s%d" % q) if p == "s" else T.var("v%d" % q, i) if p == "v" else T.var("u%d" % q, T.ZERO)
                    c.eq("broadcast %s: values of argument %d" % (tag, q), at(x, i), want, where=W)
            c.attempt("broadcast " + tag, one)
    c.fails("arrays of different lengths are rejected", lambda: c.call(W, vec("v", 2), vec("w", 3)))


def check(c):
    for f in (matrices, interpolation, sigmoids, broadcasting):
        c.attempt(f.__name__, lambda: f(c))
