"""C32: effect analysis. Every public routine is evaluated on arguments that can be written in place (symbolic numpy
arrays, lists, dictionaries, parameter sets of them). Obligations: the state reachable from its arguments, and the state
reachable from every module of the package and of the halo library (globals, registries, default values and attributes
of functions), is structurally the same afterwards; evaluating it a second time after all the others gives the same
value. Importing any module leaves the modules imported before it as they were."""

import os

from sa import arrays as A, interp as I, prims_np, terms as T
from sa.interp import FileV, NT, NTClass, Prim, Record
from sa.prims import term_key
from . import c27, c40, c41, fitmc, popmc
from .common import *

LEVEL = "proof"
TECHNIQUE = "effect analysis: abstract interpretation with aliasing of views, structural snapshots of everything reachable from arguments and modules before and after each call"
SMALL = ()
MIN_OBLIGATIONS = 300
FH, FU, LS, LG = fitmc.FH, fitmc.FU, c41.LS, c41.LG
LU = "diffstar.data_loaders.utils."
EX = "diffstar.data_loaders.extract_galacticus_sfh_data."
U = "diffstar.utils."
DU = "diffstar.diffstarpop.utils."
PU = "diffstar.diffstarpop.param_utils."
ND = "diffstar.diffstarpop.sumstats.diffndhist."
L = popmc.L
D = "diffstar.defaults."
MS, QK, HB = "diffstar.kernels.main_sequence_kernels.", "diffstar.kernels.quenching_kernels.", "diffstar.kernels.history_kernel_builders."
DM = "diffstar.diffstarpop.kernels.defaults_mgash."


def soft(name, *shape, dtype="f"):
    """an array of symbols that can be written in place"""
    return A.build(shape, lambda ix: T.var(name, *ix), dtype, False)


def soften(v):
    if isinstance(v, A.Arr):
        return A.build(v.shape, lambda ix: v.get(ix), v.dtype, False)
    if isinstance(v, NT):
        return NT(v.cls, [soften(x) for x in v.vals])
    if isinstance(v, (list, tuple)):
        return type(v)(soften(x) for x in v)
    if isinstance(v, dict):
        return {k: soften(x) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- snapshots
FIXED = {}


def state(v):
    """structure of a value, with what hangs on functions"""
    if (isinstance(v, A.Arr) and v.jax) or (isinstance(v, NT) and all(isinstance(x, (T.Poly, int, float)) for x in v.vals)):
        # immutable: described once
        if id(v) not in FIXED:
            FIXED[id(v)] = v, term_key(v)
        return FIXED[id(v)][1]
    if isinstance(v, I.Func):
        return ("func", v.qual, tuple(state(x) for x in v.defaults), tuple((k, state(x)) for k, x in sorted(v.kwdefaults.items())), tuple((k, state(x)) for k, x in sorted(v.attrs.items())))
    if isinstance(v, dict):
        return ("dict",) + tuple((repr(k), state(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(state(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(x) for x in v))
    if isinstance(v, NT):
        return (v.cls.name,) + tuple(state(x) for x in v.vals)
    if isinstance(v, I.Instance):
        return ("object",) + tuple((k, state(x)) for k, x in sorted(v.attrs.items()))
    if isinstance(v, Record):
        return ("record",) + tuple((k, state(x)) for k, x in v.cols.items())
    return term_key(v)


def own(ip):
    return [m for n, m in sorted(ip.modules.items()) if n.split(".")[0] in ("diffstar", "diffmah") and getattr(m, "globals", None) is not None]


def names(m):
    return {k: v for k, v in m.globals.items() if not k.startswith("__") and not isinstance(v, I.ModuleV)}


def world(ip):
    out = {}
    for m in own(ip):
        for k, v in names(m).items():
            out[m.name + "." + k] = state(v)
    return out


def changed(a, b):
    return sorted(k for k in set(a) & set(b) if a[k] != b[k]) + sorted("%s (new)" % k for k in set(b) - set(a) if k.rsplit(".", 1)[0] in {x.rsplit(".", 1)[0] for x in a})


# ------------------------------------------------------------------ recipes
def recipes(c):
    """(routine, thunk giving positional and keyword arguments, environment or None)"""
    n, g = dims()
    ip = c.ip
    vn = lambda x: soft(x, n)
    vg = lambda x: soft(x, g)
    fields = lambda q: list(c.get(q).cls.fields)
    mk = lambda q, f: (lambda: NT(c.get(q).cls, [f(x) for x in c.get(q).cls.fields]))
    sp, mp, pp = (lambda q, pre, *d: mk(q, lambda x: soft(pre + x, *d) if d else T.var(pre + x))())  , None, None
    nt = sp
    cosmo = lambda: {"lgt0": V("lgt0"), "fb": V("fb")}
    halo1 = lambda: [V(x) for x in popmc.HALO]
    halog = lambda: [soft(x, g, dtype="i" if x == "upid" else "f") for x in popmc.HALO]
    R = []

    def add(q, args, kw=None, env=None, det=True):
        R.append((q, args, kw or (lambda: {}), env, det))

    # transforms
    add(D + "get_bounded_diffstar_params", lambda: [nt(SUP, "u.")])
    add(D + "get_unbounded_diffstar_params", lambda: [nt(SP, "s.")])
    for q, a, b in ((D + "get_bounded_diffstar_params_galpop", SUP, "u."), (D + "get_unbounded_diffstar_params_galpop", SP, "s.")):
        if c.maybe(q) is not None:
            add(q, lambda a=a, b=b: [nt(a, b, g)])
    add(DM + "get_bounded_diffstarpop_params", lambda: [nt(PUP, "")])
    add(DM + "get_unbounded_diffstarpop_params", lambda: [nt(PP, "")])
    for base, q, d, u in ((SATQ, "satquenchpop", "DEFAULT_SATQUENCHPOP_PARAMS", "DEFAULT_SATQUENCHPOP_U_PARAMS"), (PDF, "sfh_pdf", "SFH_PDF_QUENCH_PARAMS", "SFH_PDF_QUENCH_U_PARAMS")):
        for f, v in (("get_unbounded_%s_params", d), ("get_bounded_%s_params", u)):
            if c.maybe(base + f % q) is not None and c.maybe(base + v) is not None:
                add(base + f % q, lambda v=base + v: [nt(v, "")])
    for base in (MS, QK):
        add(base + "calculate_sigmoid_bounds", lambda: [{"a": soft("b", 2), "b": soft("d", 2)}])
    # model
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        for smh in (False, True):
            add("diffstar.sfh_model.calc_sfh_" + lab, lambda d=d: [nt(SP, "s.", *d), nt(MP, "m.", *d), vn("t")], lambda smh=smh: dict(cosmo(), return_smh=smh))
        add("diffstar.mgas_model.calc_mgas_" + lab, lambda d=d: [nt(SP, "s.", *d), nt(MP, "m.", *d), vn("t")], cosmo, None, not d)
        add("diffstar.mgas_model.calc_mgas_" + lab, lambda d=d: [nt(SP, "s.", *d), nt(MP, "m.", *d), vn("t")])
        pop = bool(d)
        h = halog if pop else halo1
        tp = (lambda: vg("m.t_peak")) if pop else (lambda: V("m.t_peak"))
        add(MC + "mc_diffstar_sfh_" + lab, lambda d=d, h=h: [nt(PP, "p."), nt(MP, "m.", *d)] + h() + [V("key"), vn("t")], cosmo)
        for k in ("params", "u_params"):
            add(MC + "mc_diffstar_%s_%s" % (k, lab), lambda h=h, tp=tp: [nt(PP, "p."), h()[0], tp()] + h()[1:] + [V("key")])
    add(KERN + "mc_diffstar_u_params_singlegal_kernel", lambda: [nt(PP, "p."), V("logmp0"), V("m.t_peak")] + halo1()[1:] + [V("key")])
    add(KERN + "mc_diffstar_u_params_singlegal_kernel_cen", lambda: [nt(PP, "p."), V("logmp0"), V("m.t_peak"), V("key")])
    # parameter utilities
    part = lambda q, k: (lambda: NT(NTClass("Part", fields(q)[1:k]), [V("v." + x) for x in fields(q)[1:k]]))
    add(PU + "get_all_params_from_varied", lambda: [part(PP, 4)(), nt(PP, "p.")])
    add(PU + "get_all_diffstarpop_u_params", lambda: [part(PUP, 4)()])
    add(PU + "mc_select_diffstar_params", lambda: [nt(SP, "s.", g), nt(SP, "r.", g), soft("b", g, dtype="i")])
    # numerics
    for q in ("_get_dt_array", "_jax_get_dt_array"):
        if c.maybe(U + q) is not None:
            add(U + q, lambda: [vn("t")])
            add(U + q, lambda: [soft("t", 4)])
    add(U + "get_1d_arrays", lambda: [vn("x"), V("y"), soft("z", 1)])
    add(U + "get_1d_arrays", lambda: [vn("x"), vn("y"), soft("z", n, dtype="i")])
    add(U + "cumtrapz", lambda: [vn("t"), vn("y")])
    add(U + "cumulative_mstar_formed", lambda: [vn("t"), vn("y")])
    add(U + "cumulative_mstar_formed_galpop", lambda: [vn("t"), soft("y", g, n)])
    add(U + "compute_fstar", lambda: [vn("t"), vn("y"), V("w")])
    for q in (U + "compute_fstar_vmap",):
        if c.maybe(q) is not None:
            add(q, lambda: [vn("t"), soft("y", g, n), V("w")])
    add(U + "jax_np_interp", lambda: [V("x"), vn("xt"), vn("yt"), T.dim("hi")])
    add(U + "sigmoid_poly", lambda: [vn("x"), V("x0"), V("k"), V("lo"), V("hi")])
    add(U + "tw_bin_jax_kern", lambda: [V("x"), T.exp(V("h")), V("lo"), V("hi")])
    add(DU + "correlation_from_covariance", lambda: [soft("c", 3, 3)])
    add(DU + "covariance_from_correlation", lambda: [soft("c", 3, 3), soft("s", 3)])
    add(DU + "smoothly_clipped_line", lambda: [vn("x")] + [V(x) for x in ("x0", "y0", "m", "lo", "hi")])
    # summary statistics
    h = [T.exp(V("h%d" % i)) for i in range(2)]
    nd = lambda: [soft("data", 3, 2), soft("sig", 3, 2)]
    bins = lambda: [soft("lo", 2, 2), soft("hi", 2, 2)]
    add(ND + "tw_ndhist", lambda: nd() + bins())
    add(ND + "tw_ndhist_weighted", lambda: nd() + [soft("w", 3)] + bins())
    add("diffstar.diffstarpop.sumstats.smhm.compute_smhm", lambda: [soft("mh", 3), soft("ms", 3), A.build((3,), lambda ix: T.exp(T.var("sg", *ix)), "f", False), soft("edges", 4)])
    # losses: a short list of galaxies and epochs keeps them small
    data = lambda ssfr, pre: soften(tuple(popmc.loss_data(c, ssfr, pre)))
    flat = lambda: soft("flat", len(fields(PUP)))
    kinds = {"m": lambda: data(False, "m_"), "c": lambda: data(True, "c_"), "s": lambda: data(True, "s_")}
    for q, ks in (("mstar_kern_tobs", "m"), ("loss_mstar_kern_tobs", "m"), ("mstar_ssfr_kern_tobs", "c"), ("loss_mstar_ssfr_kern_tobs", "c"),
                  ("mstar_ssfr_sat_kern_tobs", "s"), ("loss_mstar_ssfr_sat_kern_tobs", "s"), ("loss_combined_kern", "mc"), ("loss_combined_3loss_kern", "mcs")):
        add(L + q, lambda ks=ks: [nt(PUP, "")] + [kinds[k]() for k in ks], None, "pred" if q.startswith("loss_") else "loss", q.startswith("loss_"))
    for q, ks in (("get_pred_mstar_data_wrapper", "m"), ("get_pred_mstar_ssfr_data_wrapper", "c"), ("get_pred_mstar_ssfr_sat_data_wrapper", "s"),
                  ("loss_mstar_kern_tobs_grad_wrapper", "m"), ("loss_mstar_ssfr_kern_tobs_grad_wrapper", "c"), ("loss_mstar_ssfr_sat_kern_tobs_grad_wrapper", "s"),
                  ("loss_combined_wrapper", "mc"), ("loss_combined_3loss_wrapper", "mcs")):
        add(L + q, lambda ks=ks: [flat()] + [kinds[k]() for k in ks], None, "pred")
    # fitting one history
    opts = lambda: {k: V(k) for k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor", "lgt0", "fb")}
    hist = lambda: [vn("t"), vn("sfh"), nt(MP, "m.")]
    add(FH + "diffstar_fitter", hist, opts, "fit", False)
    add(FH + "get_loss_data_default", hist, opts, "fit")
    add(FH + "get_loss_data_default", hist, None, "fit")
    add(FH + "get_weights", lambda: [vn("t"), vn("lm"), vn("lf")] + [V(k) for k in ("fstar_tdelay", "dlogm_cut", "t_fit_min", "mass_fit_min")], None, "fit")
    saved = {}

    def ready(i):
        if not saved:
            saved["d"] = soften(tuple(ip.iterate(c.call(FH + "get_loss_data_default", *hist(), **opts()), None)))
        return saved["d"][i]
    unpack = lambda: soften(tuple(ip.iterate(ready(1), None)))
    add(FH + "loss_default_clipssfrh", lambda: [soft("u", len(fields(SP))), unpack()], None, "fit")
    add(FH + "loss_grad_default_clipssfrh_np", lambda: [soft("u", len(fields(SP))), unpack()], None, "fit")
    prob = lambda: [Prim("loss", lambda ip, a, k: T.app("loss", *[T.P(a[0].get([i])) for i in range(2)])), Prim("deriv", lambda ip, a, k: A.build((2,), lambda ix: T.var("grad", *ix), "f", False))]
    add(FU + "minimizer_wrapper", lambda: prob() + [(soft("p0", 2), V("sigma")), (soft("d", n), V("d2"))], lambda: {"loss_tol": T.ONE, "max_iter": 2}, "opt", False)
    add(FU + "minimizer_wrapper", lambda: prob() + [(soft("p0", 2), V("sigma")), [soft("d", n), V("d2")]], lambda: {"loss_tol": T.ONE, "max_iter": 1}, "opt", False)
    add(FU + "return_random_pinit", lambda: [(soft("p0", 2), soft("sigma", 2)), (soft("d", n), V("d2")), prob()[1]], None, "opt", False)
    for conv in (True, False):
        add(FU + "minimizer", lambda: prob() + [soft("p0", 2), (soft("d", n), V("d2")), 2], None, "opt" if conv else "optfail")
    add(FU + "jax_adam_wrapper_v2", lambda: [prob()[0], soft("p0", 2), (soft("d", n), V("d2")), 2], lambda: {"n_warmup": 1, "warmup_n_step": 1}, "opt")
    add(FU + "_jax_adam_wrapper", lambda: [prob()[0], soft("p0", 2), (soft("d", n), V("d2")), 2], None, "opt")
    # tables of fits
    add(FH + "get_header", lambda: [])
    add(FH + "get_outline", lambda: [T.dim("halo_id"), nt(SP, "s."), V("loss"), T.dim("success")])
    add(FH + "get_outline_nofit", lambda: [T.dim("halo_id")])
    cols = ["halo_id"] + fields(SP) + ["loss", "success"]
    add(FH + "write_collated_data", lambda: ["out.h5", soft("table", T.dim("k"), len(cols)), list(cols)])
    # simulation tables
    add(LU + "load_flat_hdf5", lambda: ["f.h5"], lambda: {"keys": ["halo_id", "colA"], "istart": 1, "iend": 3}, "files")
    add(LU + "load_flat_hdf5", lambda: ["f.h5"], None, "files")
    add(LG + "load_galacticus_sfh_data_block", lambda: ["f.h5", 1, 3], None, "files")
    add(LS + "load_smdpl_diffmah_fits", lambda: ["f.h5"], None, "files")
    add(LS + "load_precomputed_diffmah_fits", lambda: ["d/f.h5", V("t0")], lambda: {"npts_fit_min": V("nmin")}, "files")
    for name, arg in c41.PLAIN:
        if arg == "subvols":
            add(LS + name, lambda: [[T.dim("subvol")]], None, "sims")
            add(LS + name, lambda: ["subvols"], None, "sims")
        else:
            add(LS + name, lambda arg=arg: [] if arg is None else [arg], None, "sims")
    add(LG + "load_galacticus_sfh_target_data", lambda: ["drn"], None, "sims")
    add(LG + "write_galacticus_sfh_data_block", lambda: ["drn"], None, "sims")
    return R


def prediction(k):
    """a population prediction as an opaque function of everything it is given (its own effects are examined apart)"""
    def f(ip, fn, args, kw):
        u, d = list(ip.bind(fn, args, kw).values())
        d = ip.iterate(d, None)
        key = (term_key(u), term_key(tuple(d)))
        return A.build(d[-1].shape, lambda ix: T.app("pred_" + k, key, *[T.P(i) for i in ix]), "f", True)
    return f


def finite(v):
    """every quantity the optimisers test is finite"""
    f = lambda a: {"isnan": T.ZERO, "isfinite": T.ONE}.get(a.args[0]) if a.kind == "app" else None
    return I.map_value(v, lambda x: T.rewrite(x, f) if isinstance(x, T.Poly) else A.emap(lambda p: T.rewrite(p, f), x))


class Env:
    """surroundings a routine needs: optimisers, files, summaries"""

    def __init__(self, c):
        self.c, self.ip = c, c.ip
        self.base = dict(c.ip.intrinsics), dict(c.ip.env_externals)

    def enter(self, kind):
        c, ip = self.c, self.ip
        self.leave()
        if kind == "loss":
            ip.partials = True
            popmc.summarise(c)
            popmc.summarise_hist(c)
        elif kind == "pred":
            ip.partials = True
            for k in popmc.KERNELS:
                if c.maybe(L + k) is not None:
                    ip.intrinsics[L + k] = prediction(k)
        elif kind == "fit":
            fitmc.summarise_model(c)
            sp = c.get(SP)
            k = len(sp.cls.fields)
            ip.intrinsics[FU + "minimizer_wrapper"] = lambda ip, f, a, kw: (soft("best", k), V("loss_best"), T.dim("success"))
        elif kind in ("opt", "optfail"):
            ok = kind == "opt"
            prims_np.FINITE.update(("grad", "p0", "sigma", "x", "fun"))
            ip.env_externals["scipy.optimize.minimize"] = lambda ip, a, k: NT(c27.RES, [soft("x", 2), T.const(2), ok])
            if not ok and c.maybe(FU + "jax_adam_wrapper_v2") is not None:
                ip.intrinsics[FU + "jax_adam_wrapper_v2"] = lambda ip, f, a, kw: (soft("pa", 2), V("la"), soft("arr", 2), soft("parr", 2, 2), True)
            truth = type(ip).truth
            ip.truth = lambda v: finite(truth(ip, v))
        elif kind == "files":
            rows = {}
            ip.h5_schema = lambda ip, f, key: A.build((5,), lambda ix: T.var("file:" + key, *ix), "f", False)
            ip.h5_keylist = lambda ip, f: ["halo_id", "colA", "colB"]
        elif kind == "sims":
            c41.Files(c, *dims())
            ip.h5_schema = lambda ip, f, key: FileV(f.name, f.mode) if key in ("Outputs", "Output1", "nodeData") else soft("%s:%s" % (os.path.basename(f.name), key), T.dim("g"))

    def leave(self):
        ip = self.ip
        ip.intrinsics.clear()
        ip.intrinsics.update(self.base[0])
        ip.env_externals.clear()
        ip.env_externals.update(self.base[1])
        ip.partials = False
        for k in ("h5_schema", "h5_keylist", "truth"):
            ip.__dict__.pop(k, None)


def modules(repo):
    out = []
    for r, ds, fs in os.walk(os.path.join(repo, "diffstar")):
        ds[:] = sorted(d for d in ds if d not in ("tests", "__pycache__", "data"))
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(r, f), repo)[:-3].replace(os.sep, ".")
                out.append(p[: -len(".__init__")] if p.endswith(".__init__") else p)
    return out


def check(c, lo=0):
    ip = c.ip
    ip.roots["umachine_pyio"] = c41.STUBS
    # importing never rewrites what is already there
    fresh = {}
    ip.on_load = lambda m: fresh.setdefault(m.name, {k: state(v) for k, v in names(m).items()})
    loaded = []
    for name in modules(ip.repo):
        try:
            ip.load(name)
            loaded.append(name)
        except A.PyError:
            c.notes.append("not importable: " + name)
    ip.on_load = None
    for m in own(ip):
        if m.name in fresh:
            now = {k: state(v) for k, v in names(m).items()}
            bad = [k for k, v in fresh[m.name].items() if now.get(k) != v]
            c.require("%s stays as its own import left it while the others are imported" % m.name, not bad, "later imports change %s" % bad[:3], m.name)
    env = Env(c)
    results = {}
    R = [r for r in recipes(c) if not r[0].rsplit(".", 1)[1].startswith("_") or c.maybe(r[0]) is not None]
    used = {q for q, *_ in R}

    def run(k, q, args, kw, kind, det, again):
        short = q.replace("diffstar.", "", 1)
        c.get(q)
        env.enter(kind)
        a, w = args(), kw()
        ins = [("argument %d" % i, x) for i, x in enumerate(a)] + sorted(w.items())
        b0, w0 = {nm: state(x) for nm, x in ins}, world(ip)
        n0 = len(ip.effects)
        for nm, x in ins:
            watch(ip, nm, x, set())
        try:
            r = c.call(q, *a, **w)
        finally:
            env.leave()
        where = next((loc for o, loc in reversed(ip.effects[n0:]) if o != "np.random"), None)
        b1, w1 = {nm: state(x) for nm, x in ins}, world(ip)
        if not again:
            bad = [nm for nm in b0 if b0[nm] != b1[nm]]
            c.require("%s (%d) leaves its arguments as they were" % (short, k), not bad, "writes into %s" % bad, where or q)
        bad = changed(w0, w1)
        c.require("%s (%d)%s leaves defaults, bounds and registries as they were" % (short, k, " again" if again else ""), not bad, "changes %s" % bad[:4], where or q)
        if not det:
            return
        key = state(r)
        if not again:
            results[k] = key
        elif k in results:
            c.require("%s (%d) repeats its result after other calls" % (short, k), results[k] == key, "a second evaluation differs", q)

    for again in (False, True):
        order = list(enumerate(R))
        if again:
            order.reverse()
        for k, (q, args, kw, kind, det) in order[lo:]:
            if again and not det:
                continue
            c.attempt("%s (%d)" % (q, k), lambda: run(k, q, args, kw, kind, det, again))
    env.leave()
    rest = [q for q in public(ip) if q not in used]
    c.notes.append("public routines without arguments of their own here: " + ", ".join(rest))


def watch(ip, nm, x, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, A.Arr) and not x.jax:
        x.origin = nm
    elif isinstance(x, (list, tuple)):
        for y in x:
            watch(ip, nm, y, seen)
    elif isinstance(x, NT):
        for y in x.vals:
            watch(ip, nm, y, seen)
    elif isinstance(x, dict):
        for y in x.values():
            watch(ip, nm, y, seen)


def public(ip):
    out = []
    for m in own(ip):
        if not m.name.startswith("diffstar"):
            continue
        for k, v in m.globals.items():
            if isinstance(v, I.Func) and v.module is m and not k.startswith("_"):
                out.append(m.name + "." + k)
    return out
