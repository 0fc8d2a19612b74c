"""Writes MANIFEST.json: one check per checks/c*.py module, the rest not applicable (with a reason)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
    "N01": "Whether an iterative optimiser converges to the history that generated the data depends on the run-time trajectory of scipy's L-BFGS-B on a non-convex loss; no sound static argument bounds it.",
    "N02": "Convergence of sample moments is a statement about the distribution of pseudo-random numbers at run time. The static content (which Gaussian, which key, which fraction) is claimed as C13, C16 and C18.",
    "N03": "Rounding error and gradient overflow in 32-bit arithmetic depend on the magnitudes met at run time and on XLA's fusion choices; the abstract domain used here is the reals, and an interval error analysis of the compiled kernels is out of reach.",
    "N04": "Agreement with a simulation needs the simulation's catalogues, which are not in the repository; it is a statistical comparison, not a fact about the source. The completeness and filing of the tables is claimed as C22.",
}
checks, have = [], set()
for f in sorted(glob.glob(os.path.join(ROOT, "checks", "c[0-9][0-9].py"))):
    id = os.path.basename(f)[:3].upper()
    tree = ast.parse(open(f).read())
    consts = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            consts[s.targets[0].id] = s.value.value
    have.add(id)
    doc = " ".join((ast.get_docstring(tree) or "").split())
    checks.append({
        "property": id,
        "quick_cmd": "python3 -m sa.check " + id,
        "thorough_cmd": "python3 -m sa.check " + id,
        "evidence_file": "evidence/%s.json" % id,
        "technique": consts.get("TECHNIQUE", "abstract interpretation of the source to hash-consed normal forms (global value numbering), term equality and interval decisions"),
        "level": consts.get("LEVEL", "proof"),
        "level_note": doc + " " + consts.get("NOTE", "Decided for all inputs over the reals, from the source alone; trusts the analyser's models of the Python, numpy and jax primitives met, and does not cover rounding error."),
    })
na = [{"property": i, "reason": NA.get(i, "No check built yet.")} for i in IDS if i not in have]
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa checks spec", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: every check reads the source in /repo and runs none of it."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
