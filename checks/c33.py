"""C33: the packaged constants (age, baryon fraction, fitting limits, simulation age, minimum number of points) are given
symbols of their own and every entry point is evaluated with symbolic options. Obligations: with every option supplied no
packaged constant is mentioned anywhere in the result, each option is, and every function below the call that has a
parameter of that name is given the caller's value; with one option omitted the result is the one for its packaged
constant. Directories govern every file opened. Defaults documented as numbers are those numbers."""

import os
from fractions import Fraction

from sa import arrays as A, interp as I, prims_np, terms as T
from sa.interp import FileV, NT, Prim
from . import c27, c40, c41, fitmc, popmc
from .common import *

TECHNIQUE = "taint analysis by abstract interpretation: packaged constants and caller's options are distinct symbols tracked to every call and result"
SMALL = ({"g": 1, "n": 3},)
MIN_OBLIGATIONS = 300
FH, FU, LS, LG = fitmc.FH, fitmc.FU, c41.LS, c41.LG
PACKAGED = ("TODAY", "LGT0", "FB", "DLOGM_CUT", "T_FIT_MIN", "MIN_MASS_CUT", "FSTAR_TIME_DELAY", "SSFRH_FLOOR", "NPTS_FIT_MIN", "T0_SMDPL")
LN10 = T.log(T.const(10))
# option -> (module it comes from, name of the packaged constant)
OWN = {"dlogm_cut": "DLOGM_CUT", "t_fit_min": "T_FIT_MIN", "mass_fit_min": "MIN_MASS_CUT", "fstar_tdelay": "FSTAR_TIME_DELAY", "ssfrh_floor": "SSFRH_FLOOR",
       "lgt0": "LGT0", "fb": "FB", "npts_fit_min": "NPTS_FIT_MIN", "t0": "T0_SMDPL"}
ALIAS = {"logt0": "lgt0", "lgt0": "lgt0", "fb": "fb"}
GASF = "diffstar.mgas_model.calc_mgas_"
SFHF = "diffstar.sfh_model.calc_sfh_"


def tag(m, name, v):
    """symbol of a packaged constant: positive; the same number of the same name is one constant"""
    return T.exp(V("packaged:%s=%s" % (name, T.fmt(T.P(v)))))


def packaged(v):
    """packaged constants mentioned"""
    out = set()
    for x in pieces(v):
        for a in T.all_atoms(x):
            if a.kind == "var" and a.args[0].startswith("packaged:"):
                out.add(a.args[0])
    return out


def mentioned(v):
    out = set()
    for x in pieces(v):
        out |= {a.args[0] for a in T.all_atoms(x) if a.kind == "var"}
    return out


def scalarise(v):
    """everything numeric in a value, as nested tuples"""
    if isinstance(v, dict):
        return tuple(scalarise(x) for x in v.values())
    if isinstance(v, NT):
        return tuple(scalarise(x) for x in v.vals)
    if isinstance(v, (list, tuple)):
        return tuple(scalarise(x) for x in v)
    if isinstance(v, (T.Poly, A.Arr)):
        return v
    if A.is_num(v):
        return T.P(v)
    return ()


class Watch:
    """the values bound to parameters named after an option, in every function called"""

    def __init__(self, ip, names):
        self.ip, self.names, self.seen = ip, names, {}

    def __enter__(self):
        self.ip.on_call = self.call
        return self

    def __exit__(self, *a):
        self.ip.on_call = None

    def call(self, f, args, kw):
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs] if hasattr(f.node, "args") else []
        hit = [p for p in ps if ALIAS.get(p, p) in self.names]
        if not hit or not f.qual.startswith(("diffstar.", "diffmah.")):
            return
        b = self.ip.bind(f, args, kw)
        for p in hit:
            self.seen.setdefault((f.qual, p), []).append(b[p])


def entry(c, name, call, opts, result=lambda r: r, influence=None, passed=None, defaults=(), subject=None):
    """call(options) evaluates the entry point; opts: option -> symbol"""
    W = subject or name
    short = name.replace("diffstar.", "", 1)
    with Watch(c.ip, set(opts)) as w:
        full = scalarise(result(call(dict(opts))))
    bad = packaged(full)
    c.require("%s: no packaged constant is used when all options are given" % short, not bad, "uses %s" % sorted(bad), W)
    men = mentioned(full)
    for o in influence if influence is not None else opts:
        c.require("%s: the result depends on %s" % (short, o), bool(mentioned(opts[o]) & men), "option without effect", W)
    for (q, p), vals in sorted(w.seen.items()):
        o = ALIAS.get(p, p)
        ok = all(isinstance(x, (T.Poly, A.Arr)) and mentioned(opts[o]) <= mentioned(x) and not packaged(x) and not any(mentioned(opts[z]) & mentioned(x) for z in opts if z != o) for x in vals)
        c.require("%s: %s of %s is the caller's" % (short, p, q.replace("diffstar.", "", 1)), ok, "given %s" % [T.fmt(x) if isinstance(x, T.Poly) else "an array" for x in vals][:3], q)
    given = {o: default_of(c, name, o) for o in defaults}
    for o in defaults:
        got = scalarise(result(call({k: v for k, v in opts.items() if k != o})))
        c.eq("%s: omitting %s uses the packaged constant" % (short, o), got, scalarise(result(call({**opts, o: given[o]}))), where=W)
    if defaults:
        got = scalarise(result(call({k: v for k, v in opts.items() if k not in defaults})))
        c.eq("%s: omitting all options uses the packaged constants" % short, got, scalarise(result(call({**opts, **given}))), where=W)


def default_of(c, name, o):
    """the packaged constant an option stands for when omitted"""
    if name.startswith("diffstar.mgas_model"):
        return T.P(c.get("diffstar.defaults." + OWN[o]))
    mod = name.rsplit(".", 1)[0]
    if o in ("lgt0", "fb"):
        return T.P(c.get("diffstar.defaults." + OWN[o]))
    m = c.ip.load(mod).globals
    for k, v in m.items():
        if k == OWN[o] and A.is_num(v):
            return T.P(v)
    raise T.Undecided("packaged constant %s not found" % OWN[o])


# ---------------------------------------------------------------------------
def model(c):
    n, g = dims()
    cosmo = {"lgt0": V("lgt0"), "fb": V("fb")}
    for lab, d in (("singlegal", ()), ("galpop", (g,))):
        sp, mp, t = c.nt(SP, "s.", *d), c.nt(MP, "m.", *d), vec("t", n)
        for smh in (False, True):
            c.attempt(SFHF + lab, lambda: entry(c, SFHF + lab, lambda o: c.call(SFHF + lab, sp, mp, t, return_smh=smh, **o), cosmo))
        c.attempt(GASF + lab, lambda: entry(c, GASF + lab, lambda o: c.call(GASF + lab, sp, mp, t, **o), cosmo, defaults=("lgt0", "fb")))
        h = [vec(x, *d, dtype="i" if x == "upid" else "f") if d else V(x) for x in popmc.HALO]
        q = MC + "mc_diffstar_sfh_" + lab
        c.attempt(q, lambda: entry(c, q, lambda o: c.call(q, c.nt(PP, "p."), mp, *h, V("key"), t, **o), cosmo))


def population(c):
    popmc.summarise(c)
    L = popmc.L
    pup = c.get(PUP)
    u = NT(pup.cls, [V(x) for x in pup.cls.fields])
    try:
        d = popmc.loss_data(c, False, "")
        keep = {}

        def run(o):
            return c.call(L + "mstar_kern_tobs", u, tuple([*d[:8], o["lgt0"], o["fb"], *d[10:]]))
        c.attempt(L + "mstar_kern_tobs", lambda: entry(c, L + "mstar_kern_tobs", run, {"lgt0": V("lgt0"), "fb": V("fb")}))
        d2 = popmc.loss_data(c, True, "")
        g = c.ip.load(L[:-1]).globals
        K = L + "_mc_diffstar_sfh_galpop_vmap_kern"
        for q in ("mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs"):
            popmc.summarise_hist(c)

            def run2(o, q=q):
                return c.call(L + q, u, tuple([*d2[:8], o["lgt0"], o["fb"], *d2[10:]]))
            c.attempt(L + q, lambda: entry(c, L + q, run2, {"lgt0": V("lgt0"), "fb": V("fb")}))
    finally:
        popmc.unsummarise(c)


def fitting(c):
    n = T.dim("n")
    t, sfh = vec("t", n), vec("sfh", n)
    mah = c.nt(MP, "m.")
    opts = {k: V(k) for k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "lgt0", "fb")}
    opts["ssfrh_floor"] = T.exp(V("ln_ssfrh_floor"))
    q = FH + "get_loss_data_default"
    data = lambda o: c.call(q, t, sfh, mah, **o)
    c.attempt(q, lambda: entry(c, q, data, opts, defaults=tuple(opts)))
    # the fitter hands the optimiser exactly that problem
    calls = []
    sp = c.get(SP)
    k = len(sp.cls.fields)

    def wrap(ip, f, args, kw):
        calls.append(ip.bind(f, args, kw))
        return vec("best", k), V("loss_best"), T.dim("success")
    c.get(FU + "minimizer_wrapper")
    c.ip.intrinsics[FU + "minimizer_wrapper"] = wrap
    fitmc.summarise_model(c)
    model_seen = []
    inner = c.ip.intrinsics[fitmc.SINGLE]

    def spy(ip, f, args, kw):
        b = ip.bind(f, args, kw)
        model_seen.append((b["lgt0"], b["fb"]))
        return inner(ip, f, args, kw)
    c.ip.intrinsics[fitmc.SINGLE] = spy
    u = vec("u", k)

    def fit(o):
        del calls[:]
        c.call(FH + "diffstar_fitter", t, sfh, mah, **o)
        if len(calls) != 1:
            raise T.Undecided("the fitter calls the restarting optimiser %d times" % len(calls))
        b = calls[0]
        loss = c.call(b["loss_func"], u, b["loss_data"])
        return (b["p_init"], b["loss_data"], loss)
    q2 = FH + "diffstar_fitter"
    try:
        c.attempt(q2, lambda: entry(c, q2, fit, opts, defaults=tuple(opts)))

        def same():
            p0, ld, loss = fit(dict(opts))
            c.eq("the fitter's start and loss data are those of its options", scalarise((p0, ld)), scalarise(data(dict(opts))), where=q2)
            men = mentioned(loss)
            for o, x in opts.items():
                c.require("the loss of the fit depends on " + o, bool(mentioned(x) & men), "option without effect", q2)
            for a, b in model_seen:
                c.require("the model of the fit is evaluated at the caller's age", T.equal(T.P(a), opts["lgt0"]) or bool(packaged(a)) and not mentioned(opts["lgt0"]) & mentioned(a), T.fmt(T.P(a)), q2)
        c.attempt(q2 + " loss", same)
    finally:
        c.ip.intrinsics.pop(FU + "minimizer_wrapper", None)
        c.ip.intrinsics.pop(fitmc.SINGLE, None)
    w = FH + "get_weights"
    o4 = {x: V(x) for x in ("fstar_tdelay", "dlogm_cut", "t_fit_min", "mass_fit_min")}
    c.attempt(w, lambda: entry(c, w, lambda o: c.call(w, t, vec("lm", n), vec("lf", n), **o), o4))


def loaders(c):
    ip = c.ip
    N = T.dim("N")
    ip.h5_schema = lambda ip, f, key: A.build((N,), lambda ix: T.var("file:" + key, *ix), "f", False)
    nmin, t0 = V("npts_fit_min"), T.exp(V("ln_t0"))
    q = LS + "load_smdpl_diffmah_fits"
    c.attempt(q, lambda: entry(c, q, lambda o: c.call(q, "f.h5", data_drn="d", **o), {"npts_fit_min": nmin, "t0": t0}, defaults=("npts_fit_min", "t0")))
    q2 = LS + "load_precomputed_diffmah_fits"
    c.attempt(q2, lambda: entry(c, q2, lambda o: c.call(q2, "d/f.h5", t0, **o), {"npts_fit_min": nmin}, defaults=("npts_fit_min",)))
    c.attempt(q2, lambda: entry(c, q2, lambda o: c.call(q2, "d/f.h5", o["t0"], npts_fit_min=nmin), {"t0": t0}))
    ip.__dict__.pop("h5_schema", None)


def directories(c):
    ip = c.ip
    g, n = dims()
    opened = []
    ip.files = getattr(ip, "files", [])

    def note(p):
        opened.append(p)

    def files():
        fs = c41.Files(c, g, n)
        load0 = fs.load
        ip.env_externals["np.load"] = ip.env_externals["np.loadtxt"] = lambda ip, a, k: (note(a[0]), load0(ip, a, k))[1]
        rd = ip.intrinsics[c41.READER]

        def reader(ip, f, a, k):
            b = ip.bind(f, a, k)
            for v in b.values():
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    if isinstance(x, str) and x.startswith("/"):
                        note(x)
            return rd(ip, f, a, k)
        ip.intrinsics[c41.READER] = reader
    plain = dict(c41.PLAIN)
    for name, arg in c41.PLAIN:
        W = LS + name
        f = c.get(W)

        def one():
            files()
            args = () if arg is None else (arg,)
            del opened[:]
            nf = len(ip.files)
            c.call(W, *args, data_drn="/given/drn")
            paths = list(opened) + [x.name for x in ip.files[nf:]]
            c.require(name + ": reads files", bool(paths), "", W)
            for p in paths:
                c.require("%s: %s is in the caller's directory" % (name, os.path.basename(str(p))), str(p).startswith("/given/drn"), str(p), W)
            del opened[:]
            nf = len(ip.files)
            c.call(W, *args)
            b = ip.bind(f, list(args), {})
            paths2 = list(opened) + [x.name for x in ip.files[nf:]]
            c.require(name + ": the packaged directory otherwise", [os.path.normpath(str(p).replace("/given/drn", str(b["data_drn"]), 1)) for p in paths] == [os.path.normpath(str(p)) for p in paths2], str(paths2)[:200], W)
        c.attempt(W, one)
    # tables of fits
    ip.h5_schema = lambda ip, f, key: FileV(f.name, f.mode) if key in ("Outputs", "Output1", "nodeData") else A.build((g,), lambda ix: T.var("%s:%s" % (f.name, key), *ix), "f", False)
    ip.h5_keylist = lambda ip, f: ["u"]

    def under(W, run, want):
        def one():
            nf = len(ip.files)
            del opened[:]
            run()
            paths = sorted({str(x.name) for x in ip.files[nf:]} | {str(x) for x in opened})
            for drn in want:
                c.require("%s: reads from %s" % (W.rsplit(".", 1)[-1], drn), any(p.startswith(drn) for p in paths), str(paths), W)
            for p in paths:
                c.require("%s: %s is in a directory of the caller" % (W.rsplit(".", 1)[-1], os.path.basename(p)), any(p.startswith(d) for d in want), p, W)
        c.attempt(W, one)
    under(LS + "load_smdpl_diffmah_fits", lambda: c.call(LS + "load_smdpl_diffmah_fits", "f.h5", data_drn="/given/drn"), ["/given/drn/f.h5"])
    under(LS + "load_precomputed_diffmah_fits", lambda: c.call(LS + "load_precomputed_diffmah_fits", "/given/f.h5", V("t0")), ["/given/f.h5"])
    under(LS + "load_fit_sfh", lambda: c.call(LS + "load_fit_sfh", "f.h5", data_drn="/given/drn"), ["/given/drn/f.h5"])
    under(LG + "load_galacticus_sfh_target_data", lambda: c.call(LG + "load_galacticus_sfh_target_data", "/given/drn"), ["/given/drn/"])
    under(LG + "load_galacticus_diffstar_data", lambda: c.call(LG + "load_galacticus_diffstar_data", "/given/drn", diffstar_drn="/fits/drn", diffmah_drn="/halos/drn"), ["/given/drn/", "/fits/drn/", "/halos/drn/"])
    for k in ("h5_schema", "h5_keylist"):
        ip.__dict__.pop(k, None)


def fallback(c):
    """options of the gradient-descent fallback, whose defaults are documented as numbers"""
    W = FU + "jax_adam_wrapper_v2"
    p0, data = vec("p0", 2), I.Opq("loss_data")

    def run(nstep, **kw):
        s, got = c40.with_steps(c, [None] * 60, list(range(60, 0, -1)), lambda loss: c.call(W, loss, p0, data, nstep, **kw))
        return s, [s.resolve(x) for x in c.ip.iterate(got, 5)]
    step, wide = V("step"), V("wstep")
    both = lambda lab, a, b: c.eq(lab, a[1][:4], b[1][:4], where=W)
    both("no warm-up by default", run(2, step_size=step, warmup_n_step=2), run(2, step_size=step, n_warmup=0))
    both("the default step is 0.01", run(2), run(2, step_size=Fraction("0.01")))
    both("the default warm-up step is five times the step", run(1, step_size=step, n_warmup=1, warmup_n_step=2), run(1, step_size=step, n_warmup=1, warmup_n_step=2, warmup_step_size=T.mul(T.const(5), step)))
    s, got = run(2, step_size=step, n_warmup=1, warmup_n_step=2, warmup_step_size=wide)
    men = mentioned(scalarise(got[0])) | mentioned(scalarise(got[3]))
    for x in ("step", "wstep"):
        c.require("the result depends on the %s size given" % ("step" if x == "step" else "warm-up step"), x in men, "option without effect", W)
    for nw, ns in ((0, 3), (1, 2), (2, 2), (3, 1)):
        s, got = run(1, step_size=step, n_warmup=nw, warmup_n_step=ns)
        c.require("%d warm-ups of %d steps are made as asked" % (nw, ns), s.n == nw * ns + 1, "%d evaluations" % s.n, W)


def check(c):
    ip = c.ip
    ip.roots["umachine_pyio"] = c41.STUBS
    for name in PACKAGED:
        ip.constants[name] = lambda m, v, name=name: tag(m, name, v) if m.name.split(".")[0] in ("diffstar", "diffmah") else v
    c.attempt("model", lambda: model(c))
    c.attempt("population", lambda: population(c))
    c.attempt("fitting", lambda: fitting(c))
    c.attempt("loaders", lambda: loaders(c))
    c.attempt("directories", lambda: directories(c))
    c.attempt("fallback", lambda: fallback(c))
