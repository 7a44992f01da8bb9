"""Runs each planted bug of seeded/ against its property's check (scratch copies) and writes the catch matrix.

usage: matrix.py OUT.json [ID ...]
"""
import json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
out = sys.argv[1]
ids = sys.argv[2:] or sorted(os.listdir("/verif/seeded"))
res = json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    top = tempfile.mkdtemp(prefix="matrix_", dir="/tmp")
    try:
        copy = top + "/repo"
        shutil.copytree("/repo", copy, symlinks=True)
        r = subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            res[i] = {"property": m["property"], "error": r.stderr[:200]}
        else:
            e = dict(os.environ, TTI_REPO=copy, VERIF_EVIDENCE=top + "/evidence", VERIF_TIER="quick")
            r = subprocess.run([PY, "/verif/check.py", m["property"]], capture_output=True, text=True, env=e, cwd="/verif")
            first = [l.strip() for l in r.stdout.splitlines() if l.startswith("  case")][:1]
            res[i] = {"property": m["property"], "rc": r.returncode, "first": first[0][:160] if first else ""}
        print(i, res[i], flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    json.dump(res, open(out, "w"), indent=1)
