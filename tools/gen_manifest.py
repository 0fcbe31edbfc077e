"Write MANIFEST.json from the registry (run after adding a property)."
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt run_check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt run_check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the real code with z3 (path exploration, solver-decided "
                     "assertions, counterexamples replayed on the plain code)",
        "level": "model_checking",
        "level_note": "Bounded: " + p.bounds.strip() + " Exhaustive within these bounds only for the scenarios "
                      "the evidence marks so; others up to a path budget. Trusts z3, CPython and the "
                      "environment model (see DESIGN.md)." + ("" if not p.outside else " Outside: " + p.outside),
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3' && python3-vt -m compileall -q symx checks run_check.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PROPS],
    "notes": "Solver-based checking of the real code: see DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
