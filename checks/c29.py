"""C29: header, fitted rows, no-fit rows, collated columns and the reader of the collated table agree column by column.

The writers are evaluated on symbolic parameters; each token of a row is the printed form of one symbol, so the order
is read off the produced text, whatever code assembled it."""

import re

from sa import arrays as A, interp as I, prims_np as PN, terms as T
from sa.interp import NT
from .common import *

FH = "diffstar.fitting_helpers.diffstar_fitting_helpers."
RD = "diffstar.data_loaders.load_smah_data.load_fit_sfh"
SMALL = ()
MIN_OBLIGATIONS = 71


def token(s):
    """the symbol or number printed, without its format specification"""
    m = re.match(r"^\{:[^}]*\}(.*)$", s) or re.match(r"^\{(.*)\}$", s) or re.match(r"^%[-+ 0-9.]*[a-zA-Z](.+)$", s)
    return m.group(1) if m else s


def digits(s):
    """decimals of a scientific format, None where the text carries no format"""
    m = re.match(r"^\{:\s*\.(\d+)[eg]\}", s)
    return int(m.group(1)) if m else None


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def column(a, k):
    """text of column k of a (rows, columns) array at the row symbol i"""
    i = T.any_idx(T.dim("k"))
    return A.getitem(a, (i, k))[0], i


def strip_int(t, also=()):
    a = T.single_atom(t)
    while a is not None and a.kind == "app" and (a.args[0] in ("trunc", "round", "rint", "floor") or a.args[0] in also):
        t = a.args[1]
        a = T.single_atom(t)
    return t


def unnarrow(t):
    a = T.single_atom(t)
    return a.args[1] if a is not None and a.kind == "app" and a.args[0] == "narrow_f4" else t


def check(c):
    sp = c.get(SP)
    fields = list(sp.cls.fields)
    cols = ["halo_id"] + fields + ["loss", "success"]

    header, names = c.call(FH + "get_header")
    c.require("header names are identifier, parameters, loss, status", list(names) == cols, str(names), FH + "get_header")
    c.require("header line lists the same names", header.split() == ["#"] + cols or header.lstrip("#").split() == cols, header[:200], FH + "get_header")
    c.require("header line is one comment line", header.startswith("#") and header.endswith("\n") and header.count("\n") == 1, header[:200], FH + "get_header")

    p = NT(sp.cls, [V("p_" + f) for f in fields])
    line = c.call(FH + "get_outline", T.dim("halo_id"), p, V("loss"), T.dim("success"))
    toks = str(line).split()
    W = FH + "get_outline"
    c.require("fitted row is one line", str(line).endswith("\n") and str(line).count("\n") == 1, repr(line)[:200], W)
    c.require("fitted row has one value per column", len(toks) == len(cols), repr(toks)[:200], W)
    for k, f in enumerate(cols):
        got = token(toks[k]) if k < len(toks) else None
        c.require("fitted row: column " + f, got == ("p_" + f if f in fields else f), "stores %s" % got, W)
        if f in ("halo_id", "success"):
            c.require("fitted row: %s is printed exactly" % f, k < len(toks) and not re.search(r"[.%][^{}]*[efg]\}?", toks[k].replace(f, "")), str(toks[k : k + 1]), W)
        if f in fields:
            d = digits(toks[k]) if k < len(toks) else 0
            c.require("fitted row: %s keeps at least five significant digits" % f, d is None or d >= 4, str(d), W)

    fill = T.cval(T.P(c.get(FH + "NOFIT_FILL")))
    W = FH + "get_outline_nofit"
    line = c.call(W, T.dim("halo_id"))
    toks = str(line).split()
    c.require("no-fit row is one line", str(line).endswith("\n") and str(line).count("\n") == 1, repr(line)[:200], W)
    c.require("no-fit row has one value per column", len(toks) == len(cols), repr(toks)[:200], W)
    for k, f in enumerate(cols):
        got = token(toks[k]) if k < len(toks) else None
        if f == "halo_id":
            c.require("no-fit row: column halo_id", got == "halo_id", str(got), W)
        else:
            want = -1.0 if f in ("loss", "success") else float(fill)
            c.require("no-fit row: column " + f, got is not None and number(got) == want, "stores %s" % got, W)

    W = FH + "write_collated_data"
    n = T.dim("n")
    PN.NARROW[0] = True
    try:
        c.call(W, "fits.h5", vec("data", n, len(cols)), list(names))
    finally:
        PN.NARROW[0] = False
    w = c.ip.files[-1].written
    c.require("collated table has exactly the header's columns", sorted(w) == sorted(cols), str(sorted(w)), W)
    for k, f in enumerate(cols):
        if f not in w:
            c.require("collated column " + f, False, "missing", W)
            continue
        i = T.any_idx(T.dim("k"))
        got = A.getitem(w[f], (i,))[0]
        # identifiers must survive exactly; fitted values are stored to single precision at least
        if f == "halo_id":
            got = strip_int(got)
        elif f == "success":
            got = strip_int(got, ("narrow_f4", "narrow_i4", "narrow_i2", "narrow_i1"))
        else:
            got = unnarrow(got)
        c.eq("collated column " + f, got, T.var("data", i, T.const(k)), where=W)
    c.fails("column count mismatch is rejected (too many)", lambda: c.call(W, "bad.h5", vec("data", n, len(cols) + 1), list(names)))
    c.fails("column count mismatch is rejected (too few)", lambda: c.call(W, "bad.h5", vec("data", n, len(cols) - 1), list(names)))

    ms, q = c.call(RD, "fits.h5", data_drn="drn")
    k = 0
    for part, a in (("main sequence", ms), ("quenching", q)):
        c.require("reader: %s block has four columns" % part, A.same_dim(a.shape[1], 4), str(a.shape), RD)
        for j in range(4):
            got, i = column(a, j)
            at = T.single_atom(got)
            src = at.args[0] if at is not None and at.kind == "var" else str(T.fmt(got))
            f = fields[k]
            c.require("reader: %s column %d is %s" % (part, j, f), isinstance(src, str) and src.startswith("h5:") and src.endswith("/" + f) and len(at.args) == 3 and T.equal(T.P(at.args[2]), T.P(i)), "reads %s" % (src,), RD)
            c.require("reader: %s is a stored column" % f, src.rsplit("/", 1)[-1] in w, str(src), RD)
            k += 1
