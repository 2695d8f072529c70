"""Import the code under test from /repo's working tree and quieten it."""

import logging
import os
import sys
import types
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if not os.path.exists(os.path.join(REPO, "rkstiff", "__version__.py")):
    # generated by the build; the checks only need the package to import
    _m = types.ModuleType("rkstiff.__version__")
    _m.version = "0"
    sys.modules["rkstiff.__version__"] = _m

import numpy as np  # noqa: E402

np.seterr(all="ignore")
warnings.simplefilter("ignore")

import rkstiff  # noqa: E402

RKDIR = os.path.realpath(os.path.dirname(rkstiff.__file__)) + os.sep
assert RKDIR.startswith(os.path.realpath(REPO) + os.sep), RKDIR

FIXED = ("ETD4", "ETD5", "IF4")
ADAPTIVE = ("ETD34", "ETD35", "IF34", "IF45DP")
ALL = FIXED + ADAPTIVE

# a handler present up front keeps the library from adding its stderr handler
for _n in ALL:
    logging.getLogger("rkstiff." + _n).addHandler(logging.NullHandler())


def solver_class(name):
    import importlib

    return getattr(importlib.import_module("rkstiff." + name.lower()), name)
