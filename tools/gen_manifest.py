"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "contracts on the real functions; own VC generator (pyvc) over /repo's source, obligations discharged by z3/cvc5; contracts also evaluated on the running code"
BOUND = "contracts on the real functions evaluated on the running code over generated inputs (bounded stand-in: outside the verifier's reach)"
PART = "contracts on the real functions; pyvc (z3/cvc5) discharges those within its reach, the rest of the property is a bounded evaluation of the contracts on the running code"
C = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
proved = json.load(open(os.path.join(ROOT, "contracts", "baseline.json")))
checks = []
for i in ids:
    if i in C:
        level, note = C[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": PROOF if level == "proof" else PART if i in proved else BOUND, "level": level, "level_note": note})
na = [{"property": i, "reason": NA.get(i, "machinery for this property is not built yet")} for i in ids if i not in C]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import sys'", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
