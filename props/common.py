"""Loading of the code under test and small shared helpers."""
import importlib
import os
import sys

REPO = os.environ.get("SX_REPO", "/repo")
PKG = os.path.join(REPO, "scikit-topt")
sys.dont_write_bytecode = True
if PKG not in sys.path:
    sys.path.insert(0, PKG)
os.environ.setdefault("MPLBACKEND", "Agg")

import logging  # noqa: E402

logging.disable(logging.CRITICAL)


def mod(name):
    m = importlib.import_module(name)
    assert os.path.abspath(m.__file__).startswith(os.path.abspath(PKG)), m.__file__
    return m


def thorough():
    return os.environ.get("VERIF_TIER", "quick") == "thorough"
