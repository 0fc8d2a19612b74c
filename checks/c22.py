"""Constant propagation over the calibration modules: each registry entry is the table its simulation's own
module builds, field by name from that module's literals, inside the declared interval; unbounded
registries hold the image of the bounded ones; a syntactic query rejects a name given twice in one literal."""

import ast
import os

from sa import arrays as A, interp as I, ranges as R, terms as T
from sa.check import REPO
from .common import *
from .c03 import declared
from .c04 import UNB_ALL

MIN_OBLIGATIONS = 1500
PK = "diffstar.diffstarpop.kernels.params"
FAMILIES = (("params_diffstarfits_mgash", "DiffstarPop_Params_Diffstarfits_mgash", "DiffstarPop_UParams_Diffstarfits_mgash"),
            ("params_diffstarpopfits_mgash", "DiffstarPop_Params_Diffstarpopfits_mgash", "DiffstarPop_UParams_Diffstarpopfits_mgash"))
SIMS = ("smdpl_dr1_nomerging", "smdpl_dr1", "tng", "galacticus_in_situ", "galacticus_in_plus_ex_situ")


def check(c):
    b = declared(c)
    names = list(c.get(PP).cls.fields)
    e = R.Env()
    dflt = c.get(PP)
    for fam, reg, ureg in FAMILIES:
        p, u = c.get(PK + "." + reg), c.get(PK + "." + ureg)
        inner = c.maybe("%s.%s.%s" % (PK, fam, reg))
        if inner is not None:
            c.require(reg + ": package and module publish the same registry", inner is p, "different objects")
        c.eq(reg + ": one entry per simulation", sorted(p), sorted(SIMS))
        c.eq(ureg + ": one entry per simulation", sorted(u), sorted(SIMS))
        for sim in SIMS:
            lab = "%s[%s]" % (reg, sim)
            if sim not in p or sim not in u:
                continue
            v = p[sim]
            c.eq(lab + ": names", list(v.cls.fields), names)
            mod = None
            if c.ip.find_source("%s.%s_%s" % (PK, fam, sim)) is not None:
                mod = c.ip.load("%s.%s_%s" % (PK, fam, sim))
            else:
                c.notes.append("no module of its own for " + lab)
            own = {}
            for gname, gv in (mod.globals.items() if mod else ()):
                if isinstance(gv, dict) and gv and all(k in names for k in gv) and not gname.startswith("_"):
                    for k, x in gv.items():
                        own.setdefault(k, []).append((gname, x))
            path = mod.path if mod else os.path.join(REPO, "diffstar/diffstarpop/kernels/params/__init__.py")
            c.require(lab + ": its own module supplies the sequence parameters", mod is None or len(own) >= len(names) - 12,
                      "%d of %d names" % (len(own), len(names)), (path, 1))
            for k in names:
                x = T.P(v.field(k))
                lo, hi = b[k]
                c.require("%s: %s inside its interval" % (lab, k),
                          R.positive(T.sub(x, lo), e) and R.positive(T.sub(hi, x), e),
                          "%s outside (%s, %s)" % tuple(map(T.fmt, (x, lo, hi))), (path, line_of(path, k)))
                src = own.get(k) or [("packaged default", dflt.field(k))]
                for gname, y in src:
                    c.eq("%s: %s is the value given under that name (%s)" % (lab, k, gname), x, T.P(y), (path, line_of(path, k)))
            c.eq(lab + ": unbounded counterpart", u[sim], c.call(UNB_ALL, v))
        for i, a in enumerate(SIMS):
            for z in SIMS[:i]:
                if a in p and z in p:
                    same = all(T.equal(T.P(p[a].field(k)), T.P(p[z].field(k))) for k in names)
                    c.require("%s: %s and %s differ" % (reg, a, z), not same, "the same calibration is filed under both names")
    root = os.path.join(REPO, "diffstar/diffstarpop/kernels")
    for d in (root, os.path.join(root, "params")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                dup = duplicates(os.path.join(d, f))
                c.require("%s: no name given twice in one table" % f, not dup,
                          "%s given twice" % (dup and dup[0][0]), (os.path.join(d, f), dup[0][1]) if dup else None)


def duplicates(path):
    out = []
    for n in ast.walk(ast.parse(open(path).read())):
        keys = []
        if isinstance(n, ast.Dict):
            keys = n.keys
        elif isinstance(n, (ast.List, ast.Tuple)) and n.elts and all(
                isinstance(x, ast.Tuple) and len(x.elts) == 2 and isinstance(x.elts[0], ast.Constant) for x in n.elts):
            keys = [x.elts[0] for x in n.elts]
        seen = set()
        for k in keys:
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                if k.value in seen:
                    out.append((k.value, k.lineno))
                seen.add(k.value)
    return out


def line_of(path, name):
    for i, l in enumerate(open(path), 1):
        if '"%s"' % name in l or "%s=" % name in l:
            return i
    return 1
