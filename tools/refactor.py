"""Behaviour-preserving edits (tools/refactors/*.py): every check named must stay quiet.  python3 tools/refactor.py [ID..] [--tests]"""
import sys, os, glob, importlib.util, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from concurrent.futures import ThreadPoolExecutor
R = {}
for f in sorted(glob.glob(os.path.join(plant.HERE, "refactors", "*.py"))):
    s = importlib.util.spec_from_file_location("r_" + os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for r in m.REFACTORS: R[r["id"]] = r
def run(r, tests):
    d = plant.copy_repo(); root = d + "/r"; out = {}
    try:
        plant.apply_edits(root, r)
        if tests:
            q = subprocess.run([plant.PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "-c", "pytest.ini", "tests/unit", "tests/compatibility",
              "tests/integration/test_accuracy_poisson_hard.py", "tests/integration/test_accuracy_inverse_const.py"], cwd=root, env=plant.env(root), capture_output=True, text=True)
            return q.stdout.strip().splitlines()[-1]
        for c in r["run"]:
            e = dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=d + "/ev")
            try:
                q = subprocess.run([plant.PY, "lib/run.py", c], cwd=plant.V, env=e, capture_output=True, text=True, timeout=900)
                out[c] = q.returncode if q.returncode == 0 and "NOT EXPLORED" not in q.stdout else (q.returncode, [l[:300] for l in (q.stdout + q.stderr).splitlines() if "VIOL" in l or "NOT EX" in l or "Error" in l][:4] or q.stdout[-400:])
            except subprocess.TimeoutExpired: out[c] = "timeout"
    finally: plant.rm(d)
    return out
a = [x for x in sys.argv[1:] if x != "--tests"]; tests = "--tests" in sys.argv
sel = [R[x] for x in a] or list(R.values())
with ThreadPoolExecutor(5 if tests else 2) as ex:
    for r, o in zip(sel, ex.map(lambda r: run(r, tests), sel)): print(r["id"], json.dumps(o), flush=True)
