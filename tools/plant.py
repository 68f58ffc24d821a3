"""Planted bugs: writes /verif/seeded/<id>/ from the definitions in tools/plants/*.py and validates them.

  python3 tools/plant.py write [ID..]           regenerate patch.diff, demo.sh, demo.py, meta.json
  python3 tools/plant.py validate [ID..]        demo on clean and patched copy, stable tests on patched copy
  python3 tools/plant.py checks [ID..]          run every check named in `run` (or the property's) on the patched copy
Nothing here is read by a check.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
def load():
    out = {}
    for f in sorted(glob.glob(HERE + "/plants/*.py")):
        spec = importlib.util.spec_from_file_location("plants_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out
SH = '''#!/bin/bash
# run with cwd = the repository; everything it writes stays in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)"
trap 'cd /; find "$scratch" -delete' EXIT
cd "$scratch" || exit 3
export PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=-1
/opt/venv/bin/python "$here/demo.py" >out.log 2>&1
rc=$?
tail -5 out.log
exit $rc
'''
def copy_repo():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/r"])
    return d
def rm(d):
    assert d.startswith("/tmp/plant-")
    shutil.rmtree(d, ignore_errors=True)
def apply_edits(root, p):
    for f, old, new in p["edits"]:
        fn = os.path.join(root, f)
        s = open(fn).read()
        n = s.count(old)
        if n != 1: raise SystemExit(f"{p['id']}: {f}: {n} matches for {old[:60]!r}")
        open(fn, "w").write(s.replace(old, new))
def write(p):
    d = copy_repo()
    try:
        apply_edits(d + "/r", p)
        diff = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
    finally: rm(d)
    o = f"{V}/seeded/{p['id']}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(SH); os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.py", "w").write(p["demo"].lstrip())
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]),
              open(o + "/meta.json", "w"), indent=1)
def env(root):
    e = dict(os.environ, PYTHONPATH=f"{root}:/opt/vp/plugins", OMP_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1",
             TF_NUM_INTEROP_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3", MPLBACKEND="Agg")
    return e
def validate(p):
    d = copy_repo(); r = d + "/r"; res = {}
    try:
        run = lambda: subprocess.run(["bash", f"{V}/seeded/{p['id']}/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
        a = run(); res["clean"] = a.returncode
        if a.returncode: res["out"] = a.stdout[-500:]
        subprocess.check_call(["git", "-C", r, "apply", f"{V}/seeded/{p['id']}/patch.diff"])
        b = run(); res["patched"] = b.returncode; res["msg"] = b.stdout.strip().splitlines()[-1:] 
        xml = d + "/o.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-x" if 0 else "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "-c", "pytest.ini",
              "tests/unit", "tests/compatibility", "tests/integration/test_accuracy_poisson_hard.py",
              "tests/integration/test_accuracy_inverse_const.py", "--junitxml", xml], cwd=r, env=env(r), capture_output=True, timeout=1500)
        import xml.etree.ElementTree as ET
        bad = []; n = 0
        for t in ET.parse(xml).getroot().iter("testcase"):
            n += 1
            if t.find("failure") is not None or t.find("error") is not None: bad.append(t.get("classname") + "::" + t.get("name"))
        res["tests"] = n; res["failed"] = bad
    finally: rm(d)
    res["ok"] = res["clean"] == 0 and res["patched"] != 0 and not res["failed"]
    return res
def checks(p, ids, tier="quick"):
    d = copy_repo(); r = d + "/r"; out = {}
    try:
        subprocess.check_call(["git", "-C", r, "apply", f"{V}/seeded/{p['id']}/patch.diff"])
        for c in ids:
            ev = d + "/ev"
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=ev, VERIF_TIER=tier)
            try:
                q = subprocess.run([PY, "lib/run.py", c], cwd=V, env=e, capture_output=True, text=True, timeout=900)
                line = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                out[c] = (q.returncode, line[:1])
            except subprocess.TimeoutExpired: out[c] = ("timeout", [])
    finally: rm(d)
    return out
if __name__ == "__main__":
    P = load(); mode = sys.argv[1]; args = sys.argv[2:]
    allc = "--all" in args; args = [a for a in args if a != "--all"]
    sel = [P[i] for i in args] if args else list(P.values())
    if mode == "write":
        for p in sel: write(p); print("wrote", p["id"])
    elif mode == "validate":
        with ThreadPoolExecutor(4) as ex:
            for p, r in zip(sel, ex.map(validate, sel)): print(p["id"], p["property"], json.dumps(r), flush=True)
    elif mode == "checks":
        ids = lambda p: ([f"C{i:02d}" for i in range(1, 60) if os.path.exists(f"{V}/checks/c{i:02d}.py")] if allc
                         else p.get("run", [p["property"]]))
        with ThreadPoolExecutor(2) as ex:
            for p, r in zip(sel, ex.map(lambda p: checks(p, ids(p)), sel)):
                print(p["id"], json.dumps({k: v for k, v in r.items() if not allc or v[0] != 0}), flush=True)
                f = HERE + "/plant_results.json"
                t = json.load(open(f)) if os.path.exists(f) else {}
                got = set(t.get(p["id"], [])) - set(r) | {k for k, v in r.items() if v[0] == 1}
                t[p["id"]] = sorted(got)
                json.dump(t, open(f, "w"), indent=0, sort_keys=True)
