"""python -m rt.run C01 [--contract NAME] [--key KEY] [--json OUT]   (under /opt/venv, PYTHONPATH=/repo:/verif)"""
import argparse
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("the case did not finish in time")


def modules(prop):
    d = os.path.dirname(os.path.abspath(__file__))
    p = prop.lower()
    return [f[:-3] for f in sorted(os.listdir(d)) if f.endswith(".py") and (f == p + ".py" or f.startswith(p + "_"))]


def run_contract(c, seed, tier, key, deadline, case_timeout):
    from rt.core import Skip, T
    res = {"contract": c.name, "on": c.on, "rule": c.rule, "bound": c.bound, "evaluations": 0, "nontrivial": 0,
           "skipped": 0, "keys": 0, "samples": [], "failures": [], "truncated": False, "error": None}
    t0 = time.time()
    keys = set()
    try:
        it = iter(c.gen(T(seed, tier, c.prop + "/" + c.name)))
        while True:
            if time.time() > deadline:
                res["truncated"] = True
                break
            signal.alarm(case_timeout)
            try:
                k, thunk = next(it)
            except StopIteration:
                break
            finally:
                signal.alarm(0)
            if key is not None and k != key:
                continue
            signal.alarm(case_timeout)
            try:
                r = thunk()
                res["evaluations"] += 1
                if r != "trivial" and k not in keys:
                    res["nontrivial"] += 1
                    keys.add(k)
                    if len(res["samples"]) < 3:
                        res["samples"].append(k if not isinstance(r, str) else f"{k}: {r}"[:300])
            except Skip:
                res["skipped"] += 1
            except KeyboardInterrupt:
                raise
            except BaseException as x:
                res["evaluations"] += 1
                res["failures"].append({"key": k, "error": f"{type(x).__name__}: {x}"[:1500], "traceback": traceback.format_exc()[-4000:]})
                if len(res["failures"]) >= 12:
                    break
            finally:
                signal.alarm(0)
    except BaseException as x:
        signal.alarm(0)
        # generators only build inputs through the code under test; a failure here is a failure of that code
        res["failures"].append({"key": "generator", "error": f"{type(x).__name__}: {x}"[:1500], "traceback": traceback.format_exc()[-4000:]})
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def worker(prop, w, W, args, deadline):
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(5000)
    from rt import core
    for m in modules(prop):
        importlib.import_module("rt." + m)
    cs = [c for c in core.REG if c.prop == prop and (args.contract is None or c.name == args.contract)]
    out = []
    for i, c in enumerate(cs):
        if i % W == w:
            out.append(run_contract(c, args.seed, args.tier, args.key, deadline, args.case_timeout))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--contract")
    ap.add_argument("--key")
    ap.add_argument("--json")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--case-timeout", type=int, default=120)
    a = ap.parse_args()
    budget = a.budget or (420 if a.tier == "quick" else 800)
    deadline = time.time() + budget
    W = 1 if a.contract else a.jobs
    tmp = tempfile.mkdtemp(prefix="rt-")
    pids = []
    res = []
    try:
        for w in range(W):
            p = os.path.join(tmp, f"{w}.pkl")
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        r = worker(a.prop, w, W, a, deadline)
                    except BaseException as x:
                        r = [{"contract": f"worker{w}", "failures": [], "error": f"{type(x).__name__}: {x}"[:800] + traceback.format_exc()[-2500:], "evaluations": 0, "nontrivial": 0,
                              "skipped": 0, "samples": [], "on": [], "rule": "", "bound": "", "wall_s": 0, "truncated": False}]
                    with open(p + ".tmp", "wb") as f:
                        pickle.dump(r, f)
                    os.rename(p + ".tmp", p)
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            pids.append((pid, p))
        for pid, p in pids:
            os.waitpid(pid, 0)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    res += pickle.load(f)
            else:
                res.append({"contract": os.path.basename(p), "failures": [], "error": "worker died", "evaluations": 0, "nontrivial": 0,
                            "skipped": 0, "samples": [], "on": [], "rule": "", "bound": "", "wall_s": 0, "truncated": False})
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    if a.json:
        with open(a.json, "w") as f:
            json.dump(res, f, indent=1)
    bad = 0
    for r in res:
        if not a.json or r["failures"] or r["error"]:
            print(f"{a.prop}/{r['contract']}: evaluations={r['evaluations']} nontrivial={r['nontrivial']} skipped={r['skipped']} wall={r['wall_s']}s"
                  + (" TRUNCATED" if r["truncated"] else "") + (" ERROR " + r["error"] if r["error"] else ""), file=sys.stderr if a.json else sys.stdout)
        for f in r["failures"]:
            bad += 1
            if not a.json:
                print("  FAIL", f["key"], f["error"])
                if a.key or a.contract:
                    print(f["traceback"])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
