#!/usr/bin/env python
"""check.py <property id> [--tier quick|thorough] [--replay file]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ttimon import env  # noqa: E402,F401  (environment first)
from ttimon import runner  # noqa: E402

MODULES = {"F": "formula", "D": "data", "V": "values", "S": "signals", "T": "simulation", "G": "graphs",
           "C": "concurrency"}

if __name__ == "__main__":
    pid = sys.argv[1]
    os.chdir(env.VERIF)
    mod = importlib.import_module("ttimon.checks." + MODULES[pid[0]])
    sys.exit(runner.main(mod.CHECKS[pid], sys.argv[2:]))
