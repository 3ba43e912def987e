"""tools/mkseed.py ID...|all [--tests] [--check]: (re)generate seeded/<id>/ from tools/seeds.py and confirm each demo.

Works on a scratch clone; with --tests it runs the repository's tests there, with --check it runs the property's
concrete and deductive checks against the clone. Not used by any check.
"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}


def seed(id, prop, edits, needs, breaks, demo):
    S[id] = (prop, edits, needs, breaks, demo)


exec(open(os.path.join(ROOT, "tools", "seeds.py")).read())
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", LITELLM_LOCAL_MODEL_COST_MAP="True", HF_HUB_OFFLINE="1")
ENV.pop("PYTHONPATH", None)
DEMO = '#!/bin/bash\ncd "${PWD}"\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= LITELLM_LOCAL_MODEL_COST_MAP=True HF_HUB_OFFLINE=1 HOME=/root\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if ids == ["all"]:
    ids = list(S)
base = json.load(open("/opt/vp/BASELINE.json"))
W = f"/tmp/w/seedwt{os.getpid()}"
for id in ids:
    prop, edits, needs, breaks, demo = S[id]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=ENV, capture_output=True, text=True, timeout=300)
    r0 = run()
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
    r1 = run()
    msg = f"{id} {prop}: demo clean={r0.returncode} patched={r1.returncode}"
    if r0.returncode:
        msg += "\n  CLEAN FAILS " + (r0.stderr or r0.stdout)[-600:]
    if not r1.returncode:
        msg += "\n  PATCHED PASSES"
    else:
        msg += " | " + ((r1.stderr or r1.stdout).strip().splitlines() or [""])[-1][:160]
    print(msg, flush=True)
    if "--tests" in sys.argv:
        x = f"/tmp/w/seed-{os.getpid()}.xml"
        ig = [f"--ignore=tests/test_handlers_{n}.py" for n in ("indexed", "pyro_dist", "numpyro", "llm_evaluation", "llm_encoding")]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=240", "--benchmark-disable", "-x", "--maxfail=3", *ig, "effectful/", "tests/"], cwd=W, env=dict(ENV, PYTHONPATH=W), capture_output=True, text=True)
        print("   tests:", t.stdout.strip().splitlines()[-1], [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:5], flush=True)
    if "--check" in sys.argv:
        e = dict(ENV, PYTHONPATH=W + ":" + ROOT)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "rt.run", prop], cwd=ROOT, env=e, capture_output=True, text=True)
        f = [l for l in r.stdout.splitlines() if "FAIL" in l]
        p = subprocess.run(["python3-vt", "-m", "pyvc.run", prop], cwd=ROOT, env=dict(ENV, PYTHONPATH=ROOT, PYVC_REPO=W), capture_output=True, text=True)
        bad = [l for l in p.stdout.splitlines() if any(w in l for w in ("refuted", "REFUTED", "undecided", "unknown", "error", "ERROR"))]
        print("   rt:", r.returncode, len(f), f[:1], "| proof:", p.returncode, bad[:3], flush=True)
    shutil.rmtree(W, ignore_errors=True)
