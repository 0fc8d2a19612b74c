"""Check driver: builds the abstract values of the source tree and discharges obligations.

    python3 -m sa.check <property id>

Exit 0: every obligation discharged.  Exit 1: a VIOLATION line.  Exit 2: the
analysis could not give an answer (vanished anchor, construct outside its model).
"""

import importlib
import json
import os
import sys
import threading
import time
import traceback
from fractions import Fraction

from . import terms as T
from . import arrays as A
from . import interp as I
from .arrays import Arr, PyError
from .interp import NT
from .terms import Poly, Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class Anchor(Exception):
    """something the property is stated about is not in the source any more"""


class Ctx:
    def __init__(self, pid, ip=None):
        self.pid = pid
        self.ip = ip or new_interp()
        self.t0 = time.time()
        self.results = []  # (name, ok, detail, where)
        self.assumptions = []
        self.notes = []
        self.kinds = {}
        self.undecided = []

    # ------------------------------------------------------------- inputs
    def get(self, dotted):
        try:
            return self.ip.get(dotted)
        except PyError as e:
            if e.kind in ("AttributeError", "ModuleNotFoundError", "ImportError"):
                raise Anchor("%s: %s" % (dotted, e))
            raise

    def maybe(self, dotted):
        """a private helper: obligations on it are generated only while it exists"""
        try:
            return self.get(dotted)
        except Anchor:
            self.notes.append("absent: " + dotted)
            return None

    def private(self, dotted, *args):
        """call a private helper; None when it is gone or takes other arguments"""
        f = self.maybe(dotted)
        if f is None:
            return None
        try:
            return self.call(f, *args)
        except PyError as e:
            if e.kind != "TypeError":
                raise
            self.notes.append("other signature: " + dotted)
            return None

    def call(self, dotted, *args, **kw):
        f = self.get(dotted) if isinstance(dotted, str) else dotted
        r = self.ip.call(f, list(args), kw)
        T.set_loc(None)
        return r

    def nt(self, dotted, pre, *dims):
        d = self.get(dotted)
        cls = d if isinstance(d, I.NTClass) else d.cls
        return NT(cls, [vec(pre + f, *dims) if dims else T.var(pre + f) for f in cls.fields])

    # -------------------------------------------------------- obligations
    def record(self, kind, name, ok, detail="", where=None):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.results.append((kind, name, bool(ok), detail, where))
        return bool(ok)

    def require(self, name, ok, detail="", where=None):
        return self.record("require", name, ok, detail, where)

    def eq(self, name, got, want, where=None):
        diffs, n = compare(got, want)
        if diffs:
            path, why, g, w = diffs[0]
            loc = blame(g, w)
            return self.record("equal", name, False,
                               "%s%s: %s" % (name, path, why), loc or where)
        return self.record("equal", name, True, "%d component(s)" % n, where)

    def fails(self, name, f, kinds=None):
        """f must raise PyError in the analysed program"""
        try:
            f()
        except PyError as e:
            return self.record("raises", name, kinds is None or e.kind in kinds, str(e))
        return self.record("raises", name, False, "no error raised")

    def attempt(self, name, f):
        """run an analysis step whose failure in the analysed program is itself a violation"""
        try:
            return f()
        except PyError as e:
            self.record("runs", name, False, "%s fails: %s" % (name, e), e_loc(e, self.ip))
            return None
        except Anchor:
            raise
        except Exception as e:  # noqa: a construct this analysis does not handle
            self.undecide(name, e)
            return None

    def undecide(self, name, e):
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        self.undecided.append("%s: %s (at %s)" % (name, str(e)[:300] or type(e).__name__, rel(self.ip.loc)))


def e_loc(e, ip):
    return getattr(e, "loc", None) or ip.loc


def new_interp(**kw):
    ip = I.Interp(REPO, **kw)
    ip.roots["spec"] = VERIF
    return ip


def vec(name, *dims, dtype="f"):
    return A.build(dims, lambda idx: T.var(name, *idx), dtype, True)


# ------------------------------------------------------------------ comparison
def short(v, n=160):
    try:
        if isinstance(v, Poly):
            s = T.fmt(v, 4) if v.size < 400 else T.fmt(v, 2)
        elif isinstance(v, Arr):
            s = "array" + A.fmt_shape(v.shape) + (" " + short(next(iter(v.data.values())), n) if v.data else "")
        else:
            s = repr(v)
    except Exception as e:  # noqa
        s = "<%s>" % type(v).__name__
    return s if len(s) <= n else s[: n - 3] + "..."


def compare(got, want, path="", limit=3):
    out = []
    n = _cmp(got, want, path, out, limit)
    return out, n


def _numlike(v):
    return isinstance(v, (Poly, Arr, int, float, bool, Fraction)) and not isinstance(v, str)


def _cmp(a, b, path, out, limit):
    if len(out) >= limit:
        return 0
    if isinstance(a, I.Phi):
        b1, b2 = (b.a, b.b) if isinstance(b, I.Phi) and T.equal(a.c, b.c) else (b, b)
        return _cmp(a.a, b1, path + "?", out, limit) + _cmp(a.b, b2, path + ":", out, limit)
    if isinstance(a, (tuple, list, NT)) and isinstance(b, (tuple, list, NT)):
        la = list(a.vals) if isinstance(a, NT) else list(a)
        lb = list(b.vals) if isinstance(b, NT) else list(b)
        if len(la) != len(lb):
            out.append((path, "%d components, expected %d" % (len(la), len(lb)), a, b))
            return 0
        fa = a.cls.fields if isinstance(a, NT) else None
        fb = b.cls.fields if isinstance(b, NT) else None
        if fa is not None and fb is not None and tuple(fa) != tuple(fb):
            out.append((path, "fields %s, expected %s" % (list(fa), list(fb)), a, b))
            return 0
        names = fa or fb
        return sum(
            _cmp(x, y, path + ("." + names[i] if names else "[%d]" % i), out, limit)
            for i, (x, y) in enumerate(zip(la, lb)))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(str, a)) != set(map(str, b)):
            out.append((path, "keys %s, expected %s" % (sorted(map(str, a)), sorted(map(str, b))), a, b))
            return 0
        return sum(_cmp(a[k], b[k], path + "[%r]" % (k,), out, limit) for k in b)
    if _numlike(a) and _numlike(b):
        sa, sb = A.shape_of(a), A.shape_of(b)
        if len(sa) != len(sb) or not all(A.same_dim(x, y) for x, y in zip(sa, sb)):
            out.append((path, "shape %s, expected %s" % (A.fmt_shape(sa), A.fmt_shape(sb)), a, b))
            return 0
        cnt = [0]

        def rec(k, idx):
            if len(out) >= limit:
                return
            if k == len(sb):
                cnt[0] += 1
                x = A.sget(a, idx) if isinstance(a, Arr) else T.P(a)
                y = A.sget(b, idx) if isinstance(b, Arr) else T.P(b)
                if not T.equal(x, y):
                    sub = "" if not idx else "[" + ",".join(short(T.P(i), 20) for i in idx) + "]"
                    out.append((path + sub, "%s is not %s" % (short(x), short(y)), x, y))
                return
            d = sb[k]
            if isinstance(d, int):
                for i in range(d):
                    rec(k + 1, idx + [i])
            else:
                rec(k + 1, idx + [A.ci(len(sb) - k - 1, d)])

        rec(0, [])
        return cnt[0]
    if a is b:
        return 1
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if a == b:
            return 1
    elif isinstance(a, I.Opq) and isinstance(b, I.Opq):
        if repr(a) == repr(b):
            return 1
    elif isinstance(a, (I.Func, I.Prim)) or isinstance(b, (I.Func, I.Prim)):
        pass
    out.append((path, "%s is not %s" % (short(a), short(b)), a, b))
    return 0


def blame(g, w):
    """source position of a sub-term of the analysed value the expected value does not have"""
    try:
        ag = atoms_of(g)
        aw = atoms_of(w)
    except Exception:  # noqa
        return None
    best = None
    for a in ag:
        if a in aw or a.loc is None:
            continue
        if not str(a.loc[0]).startswith(REPO):
            continue
        if best is None or a.size < best.size:
            best = a
    return best.loc if best else None


def atoms_of(v):
    s = set()

    def f(x):
        if isinstance(x, Poly):
            s.update(T.all_atoms(x))
        elif isinstance(x, Arr):
            for p in x.data.values():
                s.update(T.all_atoms(p))
        return x

    I.map_value(v, f)
    return s


# --------------------------------------------------------------------- driver
def rel(where):
    if not where:
        return "?"
    if isinstance(where, str):
        return where
    p, l = where
    p = str(p)
    if p.startswith(REPO + "/"):
        p = p[len(REPO) + 1:]
    return "%s:%s" % (p, l)


def analyse(pid, mod, cases=(), dims=None):
    """one pass of a check, under a case distinction on array lengths"""
    T.DIMVAL.clear()
    T.DIMVAL.update(dims or {})
    T.DIMS_USED.clear()
    ctx = Ctx(pid)
    ctx.ip.cases = list(cases)
    err = None
    try:
        mod.check(ctx)
    except Anchor as e:
        err = "anchor vanished: %s" % e
    except PyError as e:
        ctx.record("runs", "analysed program", False,
                   "the analysed code fails: %s" % e, e_loc(e, ctx.ip))
    except (Undecided, RecursionError) as e:
        ctx.undecide("analysis", e)
    except Exception as e:  # noqa: a construct this analysis does not handle
        ctx.undecide("analysis: " + type(e).__name__, e)
    finally:
        T.DIMVAL.clear()
        ctx.dims = set(T.DIMS_USED)
    return ctx, err


SHORTEST = dict.fromkeys(("g", "nhalo", "npts", "nbins", "ndim", "N", "k", "nstep", "nz", "ngal", "nm", "ntarget", "c_nz", "c_ngal", "c_nm",
                          "c_ntarget", "s_nz", "s_ngal", "s_nm", "s_ntarget", "m_nz", "m_ngal"), 1)
SHORTEST.update({"n": 3, "nt": 3, "nedges": 2, "nedge": 2, "m_nedge": 2})
SMALL = (SHORTEST, {"g": 2, "n": 3})


def solved(c):
    """the lengths for which the condition holds, if it singles out one length or asks two to be equal"""
    ds = [a for a in T.all_atoms(c) if a.kind == "dim"]
    if not ds or len(ds) > 2:
        return None
    at = lambda *v: T.cval(T.subst(c, {d: T.const(x) for d, x in zip(ds, v)}))
    if len(ds) == 2:
        return {d.args[0]: 3 for d in ds} if at(3, 3) == 1 and at(2, 3) == 0 and at(3, 2) == 0 else None
    ok = [at(v) for v in range(65)]
    return {ds[0].args[0]: ok.index(1)} if all(x in (0, 1) for x in ok) and ok.count(1) == 1 else None


def run(pid):
    mod = importlib.import_module("checks." + pid.lower())
    ctx, err = analyse(pid, mod)
    status = 2 if err else 0
    # Lengths are at least four above. The shortest arrays, and branches on lengths in the analysed sources, by themselves
    small = getattr(mod, "SMALL", SMALL)
    known_ = lambda c: all(a.args[0] in SHORTEST for a in T.all_atoms(c) if a.kind == "dim")
    conds = [c for c in ctx.ip.conds if known_(c)][:4] if small else []
    base = len(ctx.results)
    if (small or conds) and not err and all(r[2] for r in ctx.results):
        dec = []
        for d in small:
            d = {k: v for k, v in d.items() if k in ctx.dims}
            if d:
                dec.append((d, [], d))
        one = [solved(c) for c in conds]
        other = [(c, 0) for c, o in zip(conds, one) if o]
        for c, o in zip(conds, one):
            if o and all(v >= SHORTEST[d] for d, v in o.items()):
                dec.append((o, [], o))
            elif not o:
                dec += [(T.fmt(c)[:60], [(c, 1)] + other, None), ("not " + T.fmt(c)[:60], [(c, 0)] + other, None)]
        if other:
            dec.append(("none of the special lengths", other, None))
        unsure = []
        for lab, cases, dims in dec:
            if isinstance(lab, dict):
                lab = ", ".join("%s = %d" % x for x in sorted(lab.items())[:3]) + (" and others shortest" if len(lab) > 3 else "")
            if time.time() - ctx.t0 > 400:
                unsure.append("%s: not analysed" % lab)
                continue
            c2, e2 = analyse(pid, mod, cases, dims)
            ctx.notes.append("case %s: %d obligations" % (lab, len(c2.results)))
            for kind, n, ok, d, w in c2.results:
                ctx.record(kind, "%s [case %s]" % (n, lab), ok, d, w)
            unsure += ["%s [case %s]" % (u, lab) for u in c2.undecided + ([e2] if e2 else [])]
        if conds:
            ctx.undecided = unsure
        else:
            ctx.notes += unsure
    bad = [r for r in ctx.results if not r[2]]
    nmin = getattr(mod, "MIN_OBLIGATIONS", 1)
    if not bad and status == 0 and base < (nmin + 1) // 2 and ctx.undecided:
        status, err = 2, "; ".join(ctx.undecided)
    elif not bad and status == 0 and base < nmin and not ctx.undecided:
        status, err = 2, "only %d obligations generated, %d expected" % (len(ctx.results), nmin)
    if bad:
        status = 1
    write_evidence(ctx, mod, bad, status, err)
    for f in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    print("%s: %d obligations, %d discharged, %.1fs" % (
        pid, len(ctx.results), len(ctx.results) - len(bad), time.time() - ctx.t0))
    if bad:
        path = os.path.join(VERIF, "evidence", "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump([{"rule": k, "obligation": n, "detail": d, "where": rel(w)}
                       for k, n, _, d, w in bad], f, indent=1)
        for k, n, _, d, w in bad[:10]:
            print("  %s: [%s] %s: %s" % (rel(w), k, n, d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif not err:
        for u in ctx.undecided:
            print("  UNDECIDED property=%s %s" % (pid, u))
    else:
        print("NO ANSWER property=%s %s" % (pid, err))
    return status


def known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("property=%s " % pid):
                out.append(l.split(" ", 1)[1])
    return out


def write_evidence(ctx, mod, bad, status, err):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ip = ctx.ip
    fns = sorted("%s.%s:%d" % f for f in ip.functions_seen if f[0].split(".")[0] == "diffstar")
    cov = {
        "obligations": len(ctx.results),
        "discharged": len(ctx.results) - len(bad),
        "checker_cmd": "python3 -m sa.check %s" % ctx.pid,
        "trusted_base": [
            "sa/ (abstract interpreter, its primitive tables for numpy/jax/scipy/h5py, and the term normal form)",
            "spec/ (reference definitions)", "real-number reading of floating point arithmetic",
        ],
        "rule": (getattr(mod, "RULE", None) or (mod.__doc__ or "")).strip(),
        "obligations_by_kind": ctx.kinds,
        "functions_analysed": len(fns),
        "functions": fns[:400],
        "calls_interpreted": ip.calls,
        "obligation_list": ["%s [%s] %s" % ("ok" if ok else "FAIL", k, n)
                            for k, n, ok, d, w in ctx.results][:600],
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    if ctx.undecided:
        cov["undecided_obligations"] = ctx.undecided
    if err:
        cov["no_answer"] = err
    ev = {
        "property": ctx.pid,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    pid = sys.argv[1]
    sys.setrecursionlimit(20000)
    threading.stack_size(1 << 29)
    res = []

    def go():
        try:
            res.append(run(pid))
        except BaseException:
            traceback.print_exc()
            res.append(3)

    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0])


if __name__ == "__main__":
    from sa import check as _c

    _c.main()
