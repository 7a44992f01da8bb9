"""Process environment: must be imported before numpy / pandas / tti.

The library is imported from the current working tree of /repo (pure Python, no
build product is used: byte code writing is switched off so /repo is untouched).
"""
import os
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TTI_REPO", "/repo")

os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["MPLBACKEND"] = "Agg"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
# never trust cached byte code of the tree under test
if "MPLCONFIGDIR" not in os.environ or not os.access(os.environ["MPLCONFIGDIR"], os.W_OK):
    _d = os.path.join(VERIF, "evidence", ".mpl")
    try:
        os.makedirs(_d, exist_ok=True)
    except OSError:
        _d = tempfile.mkdtemp(prefix="ttimon-mpl-")
    os.environ["MPLCONFIGDIR"] = _d

if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import logging  # noqa: E402

logging.getLogger("matplotlib").setLevel(logging.ERROR)


def load():
    """Imports the library under test and returns its indicators package."""
    import importlib.metadata as md

    try:
        md.version("tti")
    except md.PackageNotFoundError:  # run from a bare source tree
        real = md.version
        md.version = lambda name: "0" if name == "tti" else real(name)
    import tti
    import tti.indicators as ti

    where = os.path.realpath(os.path.dirname(tti.__file__))
    want = os.path.realpath(os.path.join(REPO, "tti"))
    if where != want:
        raise RuntimeError("tti imported from %s, expected %s" % (where, want))
    warnings.simplefilter("ignore")
    return ti
