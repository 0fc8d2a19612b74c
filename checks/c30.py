"""C30: every block loader, evaluated for symbolic and for boundary block limits on a file with symbolic contents,
returns exactly the rows of its own full read; columns without a galaxy axis come back whole; the full read is each
named column of the file. Consecutive blocks therefore tile the full table."""


from sa import arrays as A, interp as I, terms as T
from sa.interp import FileV, NT, Ragged
from .common import *

LU = "diffstar.data_loaders.utils."
EX = "diffstar.data_loaders.extract_galacticus_sfh_data."
LG = "diffstar.data_loaders.load_galacticus_sfh."
LS = "diffstar.data_loaders.load_smah_data."
MIN_OBLIGATIONS = 485

a, b, N = T.dim("a"), T.dim("b"), T.dim("N")
ROWS = 5
SYM = [(a, b), (0, b), (a, None), (0, None)]
ENDS = [(0, None), (1, None), (0, 0), (0, 1), (0, 3), (2, 4), (3, 3), (2, 5), (0, 5), (4, 5), (1, 9)]


def rows_of(v, i, j):
    """v[i:j], by the definition of a slice"""
    n = v.shape[0]
    if isinstance(n, int):
        j = n if j is None else min(j, n)
        i = min(i, n)
        m = j - i
    else:
        m = T.sub(T.P(n if j is None else j), T.P(i))
    ix = lambda ii: (T.add(T.P(i), T.P(ii[0])),) + tuple(ii[1:])
    return A.build((m,) + tuple(v.shape[1:]), lambda ii: A.getitem(v, ix(ii))[0], v.dtype, v.jax)


def label(i, j):
    return "[%s:%s]" % (T.fmt(T.P(i)), "" if j is None else T.fmt(T.P(j)))


def columns(v):
    if isinstance(v, dict):
        return list(v.items())
    out = []
    for k, x in enumerate(v):
        if isinstance(x, NT):
            out += [("%d.%s" % (k, f), y) for f, y in zip(x.cls.fields, x.vals)]
        else:
            out.append((str(k), x))
    return out


def blocks(c, where, read, whole=(), ranges=SYM, full=None):
    """read(i, j) returns rows i..j of read(0, None)"""
    full = columns(read(0, None) if full is None else full)
    for i, j in ranges:
        def one():
            got = columns(read(i, j))
            c.require("%s: same columns %s" % (where, label(i, j)), [k for k, _ in got] == [k for k, _ in full], str([k for k, _ in got]), where)
            for (k, x), (_, y) in zip(got, full):
                c.eq("%s: %s rows %s" % (where.split(".")[-1], k, label(i, j)), x, y if k in whole else rows_of(y, i, j), where=where)
        c.attempt("%s %s" % (where, label(i, j)), one)


def check(c):
    ip = c.ip
    size = [N]
    tables = {}

    def schema(ip, f, key):
        if key in ("Outputs", "Output1", "nodeData"):
            return FileV(f.name, f.mode)
        if key in tables:
            return tables[key]
        n = T.dim("nt") if key == "tarr" else size[0]
        extra = (T.dim("nt"),) if key.startswith("sfh_") or key.startswith("haloAcc") else ()
        return A.build((n,) + extra, lambda ix: T.var("file:" + key, *ix), "f", False)

    ip.h5_schema = schema
    ip.h5_keylist = lambda ip, f: ["halo_id", "colA", "colB"]

    for sz, ranges in ((N, SYM), (ROWS, ENDS)):
        size[0] = sz
        # flat tables
        W = LU + "load_flat_hdf5"
        for keys in (None, ["colB", "halo_id"]):
            full = c.call(W, "f.h5") if keys is None else c.call(W, "f.h5", keys=keys)
            want = keys or ["halo_id", "colA", "colB"]
            c.require("flat table: columns read " + ("by default" if keys is None else "on request"), list(full) == want, str(list(full)), W)
            for k in want:
                c.eq("flat table: %s is its own column, all rows" % k, full.get(k), schema(ip, None, k), where=W)
            blocks(c, W, lambda i, j: c.call(W, "f.h5", istart=i, iend=j, keys=keys), (), ranges, full)
        # galacticus block
        W = LG + "load_galacticus_sfh_data_block"
        names = ("sfh_in_situ", "sfh_tot", "is_cen", "tarr")
        full = {k: schema(ip, None, k) for k in names}
        got = c.call(W, "f.h5", 0, None)
        c.require("galacticus block: columns", sorted(got) == sorted(names), str(sorted(got)), W)
        blocks(c, W, lambda i, j: {k: c.call(W, "f.h5", i, j).get(k) for k in names}, ("tarr",), ranges, full)
        # accretion histories
        W = EX + "extract_galacticus_mah_tables"
        names = ("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated")
        full = tuple(schema(ip, None, k) for k in names)
        if sz is ROWS:
            tables["haloAccretionHistoryMass"] = A.build((ROWS,), lambda ix: T.var("file:m", *ix), "f", False)
            full = (tables["haloAccretionHistoryMass"],) + full[1:]
        else:
            tables["haloAccretionHistoryMass"] = A.build((N,), lambda ix: T.var("file:m", *ix), "f", False)
            full = (tables["haloAccretionHistoryMass"],) + full[1:]
        blocks(c, W, lambda i, j: c.call(W, "f.h5", i, j), (), ranges, full)
        c.eq("number of haloes", T.P(c.call(EX + "get_nhalos_tot", "f.h5")), T.P(sz), where=EX + "get_nhalos_tot")

    # formed-mass tables: ragged rows, some of them empty, two halves (all stars, in-situ stars) of n_met bins
    W = EX + "extract_galacticus_sfh_tables"
    nt, nm = 3, 2
    for empty in ((1, 3), (0,), ()):
        rows = [A.build((0,), None, "f", False) if r in empty else A.build((2 * nm, nt), lambda ix, r=r: T.var("mass%d" % r, *ix), "f", False) for r in range(ROWS)]
        tables["col"] = Ragged(rows, {"time": vec("tgrid", nt)})

        def half(h):
            def cell(r, q):
                if r in empty:
                    return T.ZERO
                s = T.ZERO
                for m in range(nm):
                    s = T.add(s, T.var("mass%d" % r, T.const(m + h * nm), T.const(q)))
                return s

            grid = [[cell(r, q) for q in range(nt)] for r in range(ROWS)]
            return A.to_array(grid, False)

        full = (half(0), half(1), vec("tgrid", nt))
        rg = [(i, j) for i in range(ROWS + 1) for j in range(i, ROWS + 1)] if empty == (1, 3) else [(0, 0), (2, 4), (1, 5), (0, 1)]
        blocks(c, W, lambda i, j: c.call(W, "f.h5", "col", istart=i, iend=j), ("2",), rg + [(0, None), (2, None)], full)

    # halo fits: identifiers of the file's rows through both loaders
    size[0] = N
    for W, f in ((LS + "load_smdpl_diffmah_fits", lambda i, j: c.call(LS + "load_smdpl_diffmah_fits", "f.h5", data_drn="d", t0=V("t0"), npts_fit_min=V("nmin"), istart=i, iend=j)),
                 (LS + "load_precomputed_diffmah_fits", lambda i, j: c.call(LS + "load_precomputed_diffmah_fits", "d/f.h5", V("t0"), npts_fit_min=V("nmin"), istart=i, iend=j))):
        blocks(c, W, f, (), SYM)
