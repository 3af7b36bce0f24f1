"""writes MANIFEST.json from registry.PROPS and the table below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "props")]
import registry
DEF = ("abstract interpretation of MIR; derived summaries compared with the rule", "Decided on the source for all inputs of each enumerated class; trusts the library models and the interpreter.")
TECH = registry.TECH if hasattr(registry, "TECH") else {}
NA = {
 "C26": "Convergence from a neighbourhood of a root quantifies over runtime values of arbitrary smooth functions; no static argument over the source bounds them. Its structural ingredients (Newton step, updates, schedule) are decided as C09, C12 and C13.",
 "C27": "The truncation and rounding error of a forward difference depends on the model's derivatives and on its rounding, which the source does not determine. The structure of the differences is decided as C08 and the perturbation formula within C24/C10's obligations.",
 "C28": "A bound on accumulated rounding error depends on runtime magnitudes and on nalgebra's kernels; the formulas are decided over exact arithmetic instead (C11, C12).",
}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.PROPS:
        t, n = TECH.get(p, DEF)
        checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p, technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check yet: its analysis is being built")))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na, notes="No hooks: the analysis reads the MIR of the unmodified crate. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
