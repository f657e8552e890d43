"""Imports the code under test from /repo's working tree, and Hypothesis from the
offline tool environment.  Nothing is installed, nothing is written to /repo."""
import glob
import os
import sys
import tempfile
import warnings
import zipfile

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

sys.dont_write_bytecode = True
sys.path.insert(0, SRC)

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(_VT, "hypothesis")):
        sys.path.append(_VT)
        try:
            import hypothesis  # noqa: F401,F811
            return
        except ImportError:
            sys.path.remove(_VT)
    wheels = []
    for name in ("hypothesis", "sortedcontainers", "attrs"):
        found = sorted(glob.glob("/opt/veriftools/wheels/%s-*.whl" % name))
        wheels.extend(found[-1:])
    target = tempfile.mkdtemp(prefix="verif-hyp-")
    for wheel in wheels:
        with zipfile.ZipFile(wheel) as z:
            z.extractall(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401,F811


_hypothesis()

warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
np.seterr(all="ignore")

import compas.datastructures  # noqa: E402,F401
import compas.geometry  # noqa: E402,F401
import compas.rpc  # noqa: E402,F401
import autograd.numpy  # noqa: E402,F401
import nlopt  # noqa: E402,F401
import scipy.spatial  # noqa: E402,F401
import hypothesis.strategies  # noqa: E402,F401

# from here on, never read byte code: it may be out of step with /repo's working tree
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pycache-%d" % os.getpid())

import compas_cem  # noqa: E402

_where = os.path.realpath(compas_cem.__file__)
if not _where.startswith(os.path.realpath(SRC) + os.sep):
    raise ImportError("compas_cem comes from %s, not from %s" % (_where, SRC))
