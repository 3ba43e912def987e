"""Regenerates contracts/baseline.json: status of every obligation on the unchanged tree (python3-vt tools/baseline.py [ids])."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import run as R
if __name__ == "__main__":
    p = os.path.join(ROOT, "contracts", "baseline.json")
    props = sys.argv[1:]
    out = json.load(open(p)) if props and os.path.exists(p) else {}
    for prop in props or ["all"]:
        if props:
            out[prop] = {}
        for r in R.run(prop):
            if r["error"]:
                print("ERROR", r["property"], r["harness"], r["error"][:200])
            for o in r["obligations"]:
                out.setdefault(r["property"], {})[o["name"]] = o["status"]
                if o["status"] != "discharged":
                    print("  ", o["status"], o["name"])
    json.dump(out, open(p, "w"), indent=0, sort_keys=True)
    for k, v in sorted(out.items()):
        print(k, len(v), sum(1 for s in v.values() if s == "discharged"))
