"""C31: the halo-fit loader is evaluated on a table of symbols. Every returned column is, row by row, the marker where the
fit is flagged (negative loss or fewer points than the threshold) and the stored value elsewhere; the present-day mass
is the halo model's mass at the stated age, from the stored parameters where there is a fit and from finite in-bounds
defaults where there is none."""

from sa import arrays as A, interp as I, terms as T
from sa.interp import NT
from .common import *

LS = "diffstar.data_loaders.load_smah_data."
DK = "diffmah.diffmah_kernels."
MIN_OBLIGATIONS = 70
MARK = T.const(-1)
COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def check(c):
    ip = c.ip
    n = T.dim("N")
    fixed = {}
    ip.h5_schema = lambda ip, f, key: A.build((n,), lambda ix: fixed.get(key, T.var("file:" + key, *ix)), "f", False)
    d = c.get(MP)
    c.require("halo parameters are the stored ones", list(d.cls.fields) == list(COLS), str(d.cls.fields))
    bounds = c.get(DK + "MAH_PBOUNDS")
    i = T.any_idx(n)
    f = lambda k: T.var("file:" + k, i)
    nmin, t0 = V("nmin"), V("t0")
    dn, dt = T.P(c.get(LS + "NPTS_FIT_MIN")), T.P(c.get(LS + "T0_SMDPL"))
    cases = [
        ("explicit", LS + "load_smdpl_diffmah_fits", lambda W: c.call(W, "f.h5", data_drn="d", npts_fit_min=nmin, t0=t0), nmin, t0),
        ("defaults", LS + "load_smdpl_diffmah_fits", lambda W: c.call(W, "f.h5"), dn, dt),
        ("explicit", LS + "load_precomputed_diffmah_fits", lambda W: c.call(W, "d/f.h5", t0, npts_fit_min=nmin), nmin, t0),
        ("defaults", LS + "load_precomputed_diffmah_fits", lambda W: c.call(W, "d/f.h5", t0), dn, t0),
    ]
    for tag, W, run, lim, age in cases:
        def one():
            r = run(W)
            p, m, loss, npts = r
            nofit = T.b_or(T.lt(f("loss"), T.ZERO), T.lt(f("n_points_per_fit"), lim))
            p = list(p.vals if isinstance(p, NT) else p)
            pre = "%s (%s): " % (W.split(".")[-1], tag)
            for k, x in zip(COLS, p):
                c.eq(pre + "%s is the marker where there is no fit, and only there" % k, row(x, i), T.ite(nofit, MARK, f(k)), where=W)
            c.eq(pre + "loss as stored", row(loss, i), f("loss"), where=W)
            c.eq(pre + "number of points as stored", row(npts, i), f("n_points_per_fit"), where=W)
            c.require(pre + "one mass per halo", A.same_dim(m.shape[0], n) and len(m.shape) == 1, str(m.shape), W)
            model = lambda hp: c.call(DK + "mah_singlehalo", hp, A.to_array([age], True), T.log10(age))[1].get([0])
            for state, ls, np_ in (("fitted", T.ZERO, lim), ("fitted", V("l2"), T.add(lim, T.ONE)), ("failed fit", T.const(-1), lim), ("too few points", T.ONE, T.sub(lim, T.ONE))):
                if state == "fitted" and ls is not T.ZERO:
                    ls = T.exp(ls)
                fixed.update({"loss": ls, "n_points_per_fit": np_})
                mass = row(run(W)[1], i)
                fixed.clear()
                if state == "fitted":
                    c.eq(pre + "mass is the halo model's at the stated age from the stored parameters", mass, model(NT(d.cls, [f(k) for k in COLS])), where=W)
                else:
                    used = {v for v in free_vars(mass) if v.startswith("file:")}
                    c.require(pre + "mass of a halo with %s does not use its row" % state, not used, str(sorted(used)), W)
                    c.require(pre + "mass of a halo with %s is not evaluated from the marker" % state, not T.equal(mass, model(NT(d.cls, [MARK] * len(COLS)))), "", W)
                    c.eq(pre + "mass of a halo with %s is the model's for in-bounds stand-ins" % state, mass, model(NT(d.cls, [T.P(x) for x in d.vals])), where=W)
        c.attempt("%s (%s)" % (W, tag), one)
    for k, x, (lo, hi) in zip(COLS, d.vals, [ip.iterate(q, 2) for q in bounds.vals]):
        x, lo, hi = (T.cval(T.P(q)) for q in (x, lo, hi))
        c.require("stand-in %s is inside its bounds" % k, lo < x < hi, "%s" % x, DK + "DEFAULT_MAH_PARAMS")
