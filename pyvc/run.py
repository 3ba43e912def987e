"""Run the harnesses of one property (or all): python -m pyvc.run C01 [name-substring] [--json out]"""
import importlib
import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def load():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])


def _job(k):
    from pyvc import harness
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        prop, name, fn, opts = harness.HARNESSES[k]
        out.append(harness.run_one(prop, name, fn, opts))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0] if out else {"property": harness.HARNESSES[k][0], "harness": harness.HARNESSES[k][1], "error": "internal: thread died", "obligations": []}


def run(prop=None, sub=None, jobs=8):
    from pyvc import harness
    load()
    ks = [k for k, (p, n, _, _) in enumerate(harness.HARNESSES) if (prop in (None, "all", p)) and (sub is None or sub in n)]
    if not ks:
        return []
    if jobs == 1 or len(ks) == 1:
        return [_job(k) for k in ks]
    res = {}
    with ProcessPoolExecutor(max_workers=jobs) as ex:
        fs = {ex.submit(_job, k): k for k in ks}
        for f in as_completed(fs):
            k = fs[f]
            try:
                res[k] = f.result()
            except Exception as x:
                res[k] = {"property": harness.HARNESSES[k][0], "harness": harness.HARNESSES[k][1], "error": "internal: " + repr(x), "obligations": []}
    return [res[k] for k in ks]


if __name__ == "__main__":
    argv = sys.argv[1:]
    jout = None
    if "--json" in argv:
        k = argv.index("--json")
        jout = argv[k + 1]
        del argv[k:k + 2]
    a = [x for x in argv if not x.startswith("-")]
    rs = run(a[0] if a else None, a[1] if len(a) > 1 else None)
    if jout:
        with open(jout, "w") as f:
            json.dump(rs, f, indent=1)
    for r in rs:
        st = {}
        for o in r["obligations"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
        print(r["property"], r["harness"], f"paths={r.get('paths')} vcs={r.get('vcs')} {st} solver={r.get('solver_s')}s wall={r.get('wall_s')}s", ("ERROR " + r["error"]) if r["error"] else "")
        for o in r["obligations"]:
            if o["status"] != "discharged" or "-v" in sys.argv:
                print("    ", o["status"], o["name"])
                if o["detail"] and o["status"] != "discharged":
                    print("        ", json.dumps(o["detail"], indent=1)[:1800].replace("\n", "\n         "))
