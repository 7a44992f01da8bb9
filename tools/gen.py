#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog  # noqa: E402

PY = "/opt/venv/bin/python"
have = set()
for f in os.listdir(os.path.join(ROOT, "ttimon", "checks")):
    if f.endswith(".py"):
        src = open(os.path.join(ROOT, "ttimon", "checks", f)).read()
        have |= set(re.findall(r'["\']([A-Z]\d\d)["\']', src))
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in catalog.P:
        fh.write(json.dumps({k: p[k] for k in keys}) + "\n")
man = {
    "version": 1,
    "setup_cmd": PY + " -c \"import pandas, numpy, scipy, matplotlib, sys; sys.path.insert(0, '.'); "
                      "from ttimon import env; env.load(); print('ready')\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "%s check.py %s --tier quick" % (PY, p["id"]),
        "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p["id"]),
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "fault_enumeration" if p["id"] == "T05" else "exploration",
        "level_note": p["note"],
    } for p in catalog.P if p["id"] in have],
    "not_applicable": [{"property": p["id"], "reason": "check under construction"}
                       for p in catalog.P if p["id"] not in have],
    "notes": "No hooks in /repo: everything is observed at the public API. Pure Python library without "
             "threads or native code: compiler sanitizers have nothing to instrument (see DESIGN.md).",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
