"""C41: every simulation loader is evaluated on files of symbols (the optional mock reader replaced by its signature). The
returned masses must be, galaxy by galaxy, the logarithm of the reference mass formed by the returned rates on the
returned times; identifiers, rates and masses of row i all come from row i of one file; returned halo masses never
decrease in time and the returned peak mass is their last column. Galacticus rates are the formed mass of disk plus
bulge per time step, under the names the block reader asks for."""

import os

from sa import arrays as A, interp as I, terms as T
from sa.interp import NT, Record
from .common import *

LS = "diffstar.data_loaders.load_smah_data."
LG = "diffstar.data_loaders.load_galacticus_sfh."
READER = "umachine_pyio.load_mock.load_mock_from_binaries"
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "stubs")
PLAIN = [("load_bolshoi_data", "cens"), ("load_bolshoi_small_data", "cens"), ("load_tng_data", None), ("load_tng_small_data", "cens"), ("load_mdpl_data", "cens"), ("load_mdpl_small_data", "cens"), ("load_SMDPL_nomerging_data", "subvols"), ("load_SMDPL_DR1_data", "subvols")]
WITH_HALO = {"load_tng_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data"}
MIN_OBLIGATIONS = 100


class Files:
    def __init__(self, c, g, n):
        self.g, self.n = g, n
        ip = c.ip
        ip.env_externals["np.load"] = ip.env_externals["np.loadtxt"] = self.load
        c.get(READER)
        ip.intrinsics[READER] = lambda ip, f, a, k: self.record("mock", list(ip.bind(f, a, k)["galprops"]))

    def col(self, src, k):
        hist = k in ("sfh", "mpeakh") or "_history_" in k
        return A.build((self.g, self.n) if hist else (self.g,), lambda ix: T.var("%s:%s" % (src, k), *ix), "f", False)

    def record(self, src, names):
        return Record(self.g, {k: self.col(src, k) for k in names})

    def load(self, ip, a, k):
        fn = os.path.basename(a[0])
        if "cosmic_time" in fn:
            return vec("t", self.n)
        if fn.startswith("tarr_"):
            return vec("tarr", self.n)
        if fn.startswith("delta_"):
            return A.build((self.g, self.n), lambda ix: T.var(fn, *ix), "f", False)
        names = ["mpeak", "mpeakh", "sfh", "halo_id"] if "tng" in fn else ["halo_id", "mpeak", "sfr_history_main_prog", "sfr_history_all_prog", "mpeak_history_main_prog"]
        return self.record(fn, names)


def first_index_ok(v, i):
    """variables with a galaxy axis are read at row i only"""
    for a in var_atoms(v):
        if ":" in a.args[0] and not T.equal(T.P(a.args[2]), i):
            return False
    return True


def loader(c, name, arg):
    W = LS + name
    g, n = T.dim("g"), T.dim("n")
    Files(c, g, n)
    args = () if arg is None else (arg,)
    r = c.call(W, *args)
    ids, lgm, sfr, t = r[:4]
    i, j = T.any_idx(g), T.any_idx(n)
    at = lambda x, *q: A.getitem(x, q)[0]
    for nm, x, d in (("identifiers", ids, 1), ("masses", lgm, 2), ("rates", sfr, 2), ("times", t, 1)):
        want = (g, n)[:d] if nm != "times" else (n,)
        c.require("%s: shape of %s" % (name, nm), len(x.shape) == d and all(A.same_dim(p, q) for p, q in zip(x.shape, want)), str(x.shape), W)
    rate = lambda q: at(sfr, i, q)
    src = {a.args[0].split(":")[0] for a in var_atoms(rate(j))}
    c.require(name + ": rates are one column of one file, read row by row", len(src) == 1 and first_index_ok(rate(j), i), str(src), W)
    tt = A.build((n,), lambda ix: at(t, ix[0]), "f", True)
    ss = A.build((n,), lambda ix: rate(ix[0]), "f", True)
    mass = c.call("spec.model.mass_formed", tt, ss)
    c.eq(name + ": masses are those formed at the returned rates on the returned times", at(lgm, i, j), T.log10(at(mass, j)), where=W)
    x = at(ids, i)
    ok = T.equal(x, i) or any(T.equal(x, T.var("%s:halo_id" % s, i)) for s in src)
    c.require(name + ": identifiers are those of the rows of that file", ok, T.fmt(x), W)
    if name not in WITH_HALO:
        return
    lgh, peak = r[4:6]
    c.require(name + ": halo masses row by row, from the same file", first_index_ok(at(lgh, i, j), i) and {a.args[0].split(":")[0] for a in var_atoms(at(lgh, i, j))} == src, "", W)
    c.eq(name + ": peak mass is the final halo mass", at(peak, i), at(lgh, i, T.sub(T.P(n), T.ONE)), where=W)
    for m in (2, 3, 4):
        Files(c, g, m)
        lgh = c.call(W, *args)[4]
        for q in range(m - 1):
            x, y = at(lgh, i, q), at(lgh, i, q + 1)
            c.require("%s: halo mass does not decrease, step %d of %d" % (name, q, m - 1), T.equal(T.tmax(x, y), y), "", W)


def galacticus(c):
    ip = c.ip
    g, n = T.dim("g"), T.dim("n")
    Files(c, g, n)
    ip.h5_schema = lambda ip, f, key: I.FileV(f.name, f.mode) if key in ("Outputs", "Output1", "nodeData") else A.build((g,), lambda ix: T.var("%s:%s" % (os.path.basename(f.name), key), *ix), "f", False)
    W = LG + "load_galacticus_sfh_target_data"
    r = c.call(W, "drn")
    i, j = T.any_idx(g), T.any_idx(n)
    at = lambda x, *q: A.getitem(x, q)[0]
    tj = T.var("tarr", j)
    prev = T.ite(T.lt(j, T.ONE), T.ZERO, T.var("tarr", T.sub(j, T.ONE)))
    for nm in ("tot", "in_situ"):
        m = T.add(*[T.var("delta_mstar_%s_%s.npy" % (nm, q), i, j) for q in ("bulge", "disk")])
        c.eq("galacticus: sfh_%s is the mass of disk and bulge formed per time step" % nm, at(r["sfh_" + nm], i, j), T.div(m, T.mul(T.const(10**9), T.sub(tj, prev))), where=W)
    c.eq("galacticus: times as stored", r["tarr"], vec("tarr", n), where=W)
    c.eq("galacticus: central flag of the same row", at(r["is_cen"], i), T.var(c.get(LG + "BN_GALCUS") + ":nodeIsIsolated", i), where=W)
    W = LG + "write_galacticus_sfh_data_block"
    c.call(W, "drn")
    f = ip.files[-1]
    c.require("galacticus: reduced table has the columns of the data", sorted(f.written) == sorted(r), str(sorted(f.written)), W)
    for k in r:
        if k in f.written:
            c.eq("galacticus: reduced table column " + k, f.written[k], r[k], where=W)
    c.require("galacticus: reduced table is the file the block reader is given", os.path.basename(f.name) == c.get(LG + "BNAME_SFH_DATA"), f.name, W)
    # the same rows are then read back under the same names
    asked = []
    ip.h5_schema = lambda ip, q, key: asked.append(key) or f.written.get(key)
    back = c.call(LG + "load_galacticus_sfh_data_block", "drn", 0, None)
    for k in r:
        c.eq("galacticus: %s survives writing and reading" % k, back.get(k), r[k], where=LG + "load_galacticus_sfh_data_block")
    # fit tables travel under their own names
    W = LG + "load_galacticus_diffstar_data"
    ip.h5_keylist = lambda ip, q: ["u"]
    ip.h5_schema = lambda ip, q, key: I.FileV(q.name, q.mode) if key in ("Outputs", "Output1", "nodeData") else A.build((g,), lambda ix: T.var("%s:%s" % (q.name, key), *ix), "f", False)
    d = c.call(W, "drn", diffstar_drn="fits", diffmah_drn="halos")
    for field, drn, bn in (("diffmah_fit_data", "halos", "BN_DIFFMAH"), ("diffstar_in_situ_fit_data", "fits", "BN_DIFFSTAR_IN_SITU"), ("diffstar_in_plus_ex_situ_fit_data", "fits", "BN_DIFFSTAR_IN_PLUS_EX_SITU")):
        got = ip.getattr(d, field)
        c.eq("galacticus: %s comes from its own file" % field, at(got["u"], i), T.var("%s/%s:u" % (drn, c.get(LG + bn)), i), where=W)
    got = ip.getattr(d, "galcus_sfh_data")
    for k in r:
        if k != "is_cen":
            c.eq("galacticus: %s is passed on" % k, got[k], r[k], where=W)


def check(c):
    c.ip.roots["umachine_pyio"] = STUBS
    for name, arg in PLAIN:
        c.get(LS + name)
        c.attempt(name, lambda: loader(c, name, arg))
    c.attempt("galacticus", lambda: galacticus(c))
