"""Plants a bug described by a spec file and confirms it (never touches /repo).

usage: plant.py SPEC.py [SPEC.py ...] [--no-tests] [--tier quick]

A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source of
the demonstration).  The change is made in a scratch copy of /repo, the repository's tests and the
demonstration are run there (and the demonstration on a clean copy), the result goes to
/verif/seeded/<ID>/, then the property's own check is run against the scratch copy (TTI_REPO).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def env(copy):
    e = dict(os.environ)
    e.update(PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def tests(copy):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300"],
                       cwd=copy, env=env(copy), capture_output=True, text=True)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))][:8] + r.stdout.splitlines()[-1:]


def plant(spec, run_tests, tier):
    s = runpy.run_path(spec)
    out = "/verif/seeded/" + s["ID"]
    top = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    copy = top + "/repo"
    res = {"id": s["ID"], "property": s["PROPERTY"]}
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        ddir = top + "/demo"
        os.mkdir(ddir)
        open(ddir + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(ddir + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(ddir + "/demo.sh", 0o755)
        res["demo_clean"] = subprocess.run(["bash", ddir + "/demo.sh"], cwd=copy, capture_output=True).returncode
        for f, old, new in s["EDITS"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                res["error"] = "%s: old text occurs %d times: %r" % (f, t.count(old), old[:60])
                return res
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
        r = subprocess.run(["bash", ddir + "/demo.sh"], cwd=copy, capture_output=True, text=True)
        res["demo_patched"] = r.returncode
        res["demo_msg"] = (r.stderr.strip().splitlines() or [""])[-1][:160]
        if res["demo_clean"] != 0 or r.returncode == 0:
            res["error"] = "demonstration does not distinguish"
            return res
        if run_tests:
            rc, fails = tests(copy)
            res["tests"] = rc
            if rc:
                res["error"] = "existing tests notice: %s" % fails
                return res
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(d)
            for n in ("demo.py", "demo.sh"):
                shutil.copy(ddir + "/" + n, out + "/" + n)
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                      open(out + "/meta.json", "w"), indent=1)
        t0 = time.time()
        e = dict(os.environ, TTI_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
        ids = s.get("CHECKS", [s["PROPERTY"]])
        res["checks"] = {}
        for pid in ids:
            r = subprocess.run([PY, "/verif/check.py", pid], cwd="/verif", env=e, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res["checks"][pid] = (r.returncode, v[:1])
        res["secs"] = round(time.time() - t0)
        return res
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    specs = [x for x in a if x.endswith(".py")]
    for sp in specs:
        res = plant(sp, "--no-tests" not in a, tier)
        print(json.dumps(res), flush=True)
