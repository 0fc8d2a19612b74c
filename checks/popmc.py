"""Summaries of the Monte Carlo population routine and of the parameter bounding, as justified by C05, C08, C10,
C13, C14 (a galaxy's positive rate at a time is a function of the parameters, its own halo, its own sub-key and that
time) and C03, C04 (a bounded parameter is a function of its own unbounded one)."""

from sa import arrays as A, interp as I, terms as T
from sa.check import compare, vec
from sa.interp import NT
from .common import *

BOUND = "diffstar.diffstarpop.kernels.defaults_mgash.get_bounded_diffstarpop_params"
GAL = MC + "mc_diffstar_sfh_galpop"
NT_SHORT = 4
HALO = ("logmp0", "upid", "lgmu_infall", "logmhost_infall", "gyr_since_infall")


def summarise(c):
    c.get(GAL)
    c.get(BOUND)
    res = c.get(MC + "MCDiffstar")
    dp, pp = c.get(SP), c.get(PP)

    def bound(ip, f, args, kw):
        u = args[0] if args else list(kw.values())[0]
        return NT(pp.cls, [T.app("bounded_" + x, T.P(u.field("u_" + x))) for x in pp.cls.fields])

    def mc(ip, f, args, kw):
        b = ip.bind(f, args, kw)
        want = ("diffstarpop_params", "mah_params") + HALO + ("ran_key", "tarr", "lgt0", "fb")
        if set(b) != set(want):
            raise T.Undecided("Monte Carlo routine has parameters %s" % sorted(b))
        par = T.app("popparams", *[T.P(x) for x in b["diffstarpop_params"].vals])
        key = T.P(b["ran_key"])
        h = [x for x in b["mah_params"].vals] + [b[x] for x in HALO]
        t = b["tarr"]
        g = h[0].shape[0]
        for x in h:
            if not isinstance(x, A.Arr) or len(x.shape) != 1:
                raise T.Undecided("halo input of %s dimensions" % (getattr(x, "shape", None),))
            if not T.equal(T.P(x.shape[0]), T.P(g)):
                raise T.Undecided("halo inputs of different lengths")
        at = lambda i: [par, key, T.P(i)] + [T.P(x.get([i])) for x in h]
        rate = lambda nm: A.build((g, t.shape[0]), lambda ix: T.exp(T.app(
            nm, *at(ix[0]), T.P(t.get([ix[1]])), T.P(b["lgt0"]), T.P(b["fb"]))), "f", True)
        per = lambda nm, dt="f": A.build((g,), lambda ix: T.app(nm, *at(ix[0])), dt, True)
        return NT(res.cls if isinstance(res, NT) else res, [
            NT(dp.cls, [per("ms_" + x) for x in dp.cls.fields]), NT(dp.cls, [per("q_" + x) for x in dp.cls.fields]),
            rate("sfh_ms"), rate("sfh_q"), per("frac_q"), A.build((g,), lambda ix: T.lt(T.app("uran", *at(ix[0])), T.app("frac_q", *at(ix[0]))), "b", True)])

    # the number of time steps does not matter: fewer keep the analysis short
    g = c.ip.load(L[:-1]).globals
    if isinstance(g.get("N_TIMES"), int):
        g["N_TIMES"] = NT_SHORT
        c.ip.load("spec.loss").globals["N_TIMES"] = NT_SHORT
    c.ip.intrinsics[BOUND] = bound
    c.ip.intrinsics[GAL] = mc


def unsummarise(c):
    c.ip.intrinsics.pop(BOUND, None)
    c.ip.intrinsics.pop(GAL, None)


L = "diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz."


def loss_data(c, ssfr, pre="", nms=2, nsf=3, nbins=None):
    """symbolic loss data; any number of epochs, galaxies per epoch, halo mass bins and targets"""
    nz, g = T.dim(pre + "nz"), T.dim(pre + "ngal")
    mp = c.get(MP)
    mah = NT(mp.cls, [vec(pre + "m." + f, nz, g) for f in mp.cls.fields])
    d = [mah] + [vec(pre + x, nz, g, dtype="i" if x == "upid" else "f") for x in HALO]
    d += [vec(pre + "key", nz), vec(pre + "tobs", nz), V(pre + "lgt0"), V(pre + "fb")]
    if not ssfr:
        nb = nbins or T.dim(pre + "nedge")
        return d + [vec(pre + "mbins", nb), vec(pre + "target", nz, T.sub(T.P(nb), T.ONE))]
    nm, nt = T.dim(pre + "nm"), T.dim(pre + "ntarget")
    return d + [vec(pre + "lo", nms * nsf, 2), vec(pre + "hi", nms * nsf, 2), vec(pre + "mbins", nms + 1),
                vec(pre + "sbins", nsf + 1), vec(pre + "nmh", nz, nm), vec(pre + "indx", nz, nm, dtype="i"),
                vec(pre + "ids", nt, dtype="i"), vec(pre + "target", nz, nt, nsf)]


def at_epoch(d, iz):
    """(halo, tobs, lgt0, fb) of epoch iz"""
    r = lambda x: A.getitem(x, (iz,))[0]
    mah = NT(d[0].cls, [r(x) for x in d[0].vals])
    return [mah] + [r(x) for x in d[1:6]] + [r(d[6])], r(d[7]), d[8], d[9]


HIST = ("diffsky.soft_histograms.diffndhist.tw_ndhist_weighted", "diffsky.diffndhist.tw_ndhist_weighted",
        "diffstar.diffstarpop.sumstats.diffndhist.tw_ndhist_weighted")


def summarise_hist(c):
    """weighted soft counts as sums of products of one opaque weight per dimension; the routine used is first shown
    to be that sum with the triweight weight of spec.pop.tw_bin"""
    def count(ip, x, s, y, lo, hi):
        nd, nb = x.shape[1], lo.shape[0]
        if not isinstance(nd, int):
            raise T.Undecided("counts in an unknown number of dimensions")
    

        def el(ix):
            def term(i):
                w = T.ONE
                for k in range(nd):
                    w = T.mul(w, T.app("softweight", T.P(x.get([i, k])), T.P(s.get([i, k])), T.P(lo.get([ix[0], k])), T.P(hi.get([ix[0], k]))))
                return T.mul(w, y.get([i]))
            return T.tsum(x.shape[0], term)
        return A.build((nb,), el, "f", True)

    def hist(ip, f, args, kw):
        b = ip.bind(f, args, kw)
        v = list(b.values())
        for z, r in zip(v, (2, 2, 1, 2, 2)):
            if not isinstance(z, A.Arr) or len(z.shape) != r:
                raise T.Undecided("counts of arrays of unexpected rank")
        return count(ip, *v)

    n, nb = T.dim("npts"), T.dim("nbins")
    for f in HIST:
        try:
            if c.ip.find_source(f.rsplit(".", 1)[0]) is None:
                continue
            c.get(f)
        except Exception:
            continue
        for nd in (1, 2):
            a = (vec("x", n, nd), vec("s", n, nd), vec("y", n), vec("lo", nb, nd), vec("hi", nb, nd))
            c.eq("%s: %d-dimensional counts" % (f.rsplit(".", 2)[0], nd), c.call(f, *a), c.call("spec.pop.ndhist", *a))
        c.ip.intrinsics[f] = hist
    c.ip.intrinsics["spec.pop.ndhist"] = hist


KERNELS = {"mstar_kern_tobs": False, "mstar_ssfr_kern_tobs": True, "mstar_ssfr_sat_kern_tobs": True}


def same_value(a, b):
    try:
        return not compare(a, b)[0]
    except T.Undecided:
        return False


def summarise_pred(c, known, alike):
    """the prediction of each kernel as an opaque function of the parameters and of one of the `known` data sets
    (name -> data); `alike` maps kernels proved equal to one name"""
    def mk(k):
        def pred(ip, f, args, kw):
            u, d = list(ip.bind(f, args, kw).values())
            c.predicted.add(k)
            d = tuple(ip.iterate(d, None)) if not isinstance(d, tuple) else d
            for nm, x in known.items():
                if len(x) == len(d) and all(p is q or same_value(p, q) for p, q in zip(d[:-1], x[:-1])):
                    break
            else:
                raise T.Undecided("prediction from data that is none of the caller's")
            u = [T.P(x) for x in ip.iterate(u, None)]
            return A.build(x[-1].shape, lambda ix: T.app("pred_" + alike.get(k, k), T.var("data_" + nm), *u, *[T.P(i) for i in ix]), "f", True)
        return pred
    c.predicted = set()
    for k in KERNELS:
        c.get(L + k)
        c.ip.intrinsics[L + k] = mk(k)


def unsummarise_pred(c):
    for k in KERNELS:
        c.ip.intrinsics.pop(L + k, None)


def either(c, fast, full):
    """run the obligations of `fast`; keep their outcome unless the predictions are not obtained from the kernels, in
    which case `full` decides"""
    n = len(c.results)
    try:
        fast()
        if all(r[2] for r in c.results[n:]) or c.predicted >= set(KERNELS):
            return
    except (T.Undecided, A.PyError) as e:
        c.notes.append("short route not taken: %s" % e)
    del c.results[n:]
    full()
