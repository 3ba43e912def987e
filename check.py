#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree.

Runs the deductive half (pyvc: obligations generated from /repo's source) and the concrete half (rt: the same
contracts evaluated on the running code), writes evidence/<id>.json, prints the verdict, exits 0 or 1.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
PROOF_PY = "python3-vt"
RT_PY = "/opt/venv/bin/python"
WALL = {"quick": 780, "thorough": 870}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", JAX_PLATFORMS="cpu",
             CUDA_VISIBLE_DEVICES="", LITELLM_LOCAL_MODEL_COST_MAP="True", HF_HUB_OFFLINE="1", HOME=e.get("HOME", "/root"), LANG=e.get("LANG", "C.UTF-8"))
    return e


def findings():
    """known: property=<id> key=<contract>/<case> <what>; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(?:"([^"]*)"|(\S+)) (.*)', l)
            if m:
                out.append((m[1], m[2] or m[3], m[4].strip()))
    return out


def replay(prop, name, payload):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((name + json.dumps(payload, sort_keys=True, default=str)).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    return p


def load(path, log, proc):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = os.path.join(ROOT, "build")
    os.makedirs(tmp, exist_ok=True)
    procs = []
    specs = [("proof", [PROOF_PY, "-m", "pyvc.run", prop], dict(env(), PYTHONPATH=ROOT)),
             ("rt", [RT_PY, "-m", "rt.run", prop, "--tier", tier, "--seed", str(seed)], dict(env(), PYTHONPATH=REPO + ":" + ROOT))]
    for name, cmd, e in specs:
        j = os.path.join(tmp, f"{prop}-{name}.json")
        if os.path.exists(j):
            os.unlink(j)
        log = open(os.path.join(tmp, f"{prop}-{name}.log"), "w")
        e["VERIF_TIER"] = tier
        e["VERIF_SEED"] = str(seed)
        procs.append((name, j, subprocess.Popen(cmd + ["--json", j], cwd=ROOT, env=e, stdout=log, stderr=log, start_new_session=True)))
    deadline = t0 + WALL[tier]
    data = {}
    died = []
    for name, j, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            died.append(name + ": out of time")
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        data[name] = load(j, None, p)
        if data[name] is None:
            died.append(f"{name}: no result (exit {p.returncode})")
            data[name] = []

    baseline = {}
    bp = os.path.join(ROOT, "contracts", "baseline.json")
    if os.path.exists(bp):
        baseline = json.load(open(bp)).get(prop, {})

    # ---- deductive half
    obls, discharged, undecided, refuted, errors = {}, 0, [], [], []
    funcs, trusted, ext, assumptions = {}, set(), set(), []
    solver_s, backend, vcs = 0.0, {}, 0
    for r in data["proof"]:
        solver_s += r.get("solver_s") or 0
        vcs += r.get("vcs") or 0
        for k, v in (r.get("backend") or {}).items():
            backend[k] = backend.get(k, 0) + v
        funcs.update(r.get("functions") or {})
        trusted.update(r.get("contracts_used") or [])
        ext.update(r.get("ext_used") or [])
        assumptions += [a for a in r.get("assumptions") or [] if a not in assumptions]
        if r.get("error"):
            errors.append(f"{r['harness']}: {r['error'][:300]}")
        for o in r["obligations"]:
            obls[o["name"]] = o
            if o["status"] == "discharged":
                discharged += 1
            elif o["status"] == "refuted":
                refuted.append(o)
            else:
                undecided.append(o["name"] + ": " + o["status"])
    lost = [n for n in baseline if n not in obls]
    # ---- concrete half
    ev = nt = 0
    rules, samples, fails, rterr, bounds = [], [], [], [], []
    on = set()
    for r in data["rt"]:
        ev += r["evaluations"]
        nt += r["nontrivial"]
        on.update(r["on"])
        rules.append(f"{r['contract']}: {r['rule']} [{r['evaluations']} evaluated, bound: {r['bound']}]")
        samples += [f"{r['contract']}/{s}" for s in r["samples"][:2]]
        if r["error"]:
            rterr.append(f"{r['contract']}: {r['error'][:600]}")
        if r["truncated"]:
            errors.append(f"rt {r['contract']}: stopped at the time budget after {r['evaluations']} cases")
        for f in r["failures"]:
            fails.append((r["contract"], f))
    known = [(k, w) for p, k, w in findings() if p == prop]
    lines, nviol = [], 0
    for c, f in fails:
        key = f"{c}/{f['key']}"
        hit = [w for k, w in known if k == key]
        if hit:
            lines.append(f"KNOWN-FINDING: property={prop} {hit[0]}")
            continue
        nviol += 1
        payload = {"property": prop, "contract": c, "case": f["key"], "error": f["error"], "traceback": f["traceback"],
                   "refuted_obligations": [o["name"] for o in refuted],
                   "replay_cmd": f"cd {ROOT} && . ./env.sh && PYTHONPATH=/repo:{ROOT} {RT_PY} -m rt.run {prop} --contract {c} --key '{f['key']}' --seed {seed} --tier {tier}"}
        lines.append(f"VIOLATION property={prop} replay={replay(prop, key, payload)}")
        print(f"contract {c} on case {f['key']}: {f['error'][:500]}")
    if rterr and not fails:
        # the code under test could not even be imported or run by the harness: report what broke
        errors += ["rt " + x for x in rterr]
    if not nviol:
        for o in refuted:
            if baseline.get(o["name"]) == "discharged":
                nviol += 1
                payload = {"property": prop, "failed_obligation": o["name"], "verifier_output": o.get("detail"), "note": "discharged on the unchanged tree, refuted on this one; no concrete failing input was found"}
                lines.append(f"VIOLATION property={prop} replay={replay(prop, o['name'], payload)} no-failing-input-found")
                print("failed obligation:", o["name"])
                break
            else:
                undecided.append(o["name"] + ": refuted (not in the baseline)")
    degraded = died + errors + ["undecided " + u for u in undecided] + ["obligation not generated: " + n for n in lost]
    nob = len(obls)
    level = "proof" if nob and PROOF_LEVEL(prop) else "exploration" if ev else "other"
    cov = {"obligations": nob, "discharged": discharged, "verification_conditions": vcs, "backends": backend, "solver_s": round(solver_s, 2),
           "checker_cmd": f"{PROOF_PY} -m pyvc.run {prop}",
           "functions_under_contract": funcs,
           "trusted_base": ["pyvc: VC generator and its model of the Python subset", "z3 (and cvc5 for z3's unknowns)"]
           + ["assumed contract: " + t for t in sorted(trusted)] + ["modelled external: " + x for x in sorted(ext)],
           "evaluations": ev, "distinct_nontrivial": nt,
           "rule": "bounded stand-in / replay: contracts evaluated on the real functions. " + " | ".join(rules),
           "samples": samples[:12] or ["none"],
           "runtime_contracts_on": sorted(on), "degraded": degraded, "refuted": [o["name"] for o in refuted],
           "obligation_list": sorted(obls)}
    if level == "other":
        cov["explanation"] = "; ".join(degraded) or "nothing ran"
    evd = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": assumptions + ["integers mathematical; user handlers and operation bodies arbitrary but single-threaded; concrete half covers only the sampled cases (bounded)"],
           "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print(f"{prop} [{tier}]: {discharged}/{nob} obligations discharged ({vcs} VCs, solver {solver_s:.1f}s), {ev} contract evaluations, {len(degraded)} degraded, {time.time()-t0:.1f}s")
    for d in degraded[:30]:
        print("  degraded:", d[:400])
    for l in dict.fromkeys(lines):
        print(l)
    return 1 if nviol else 0


def PROOF_LEVEL(prop):
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        return any(c["property"] == prop and c["level"] == "proof" for c in m["checks"])
    except Exception:
        return False


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as x:  # an error of the machinery is never reported as a violation
        import traceback
        traceback.print_exc()
        rc = 0
    sys.exit(rc)
