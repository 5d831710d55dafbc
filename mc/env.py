"""Imports gpkit from /repo's working tree (no build step: pure Python) and resets its global state."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
SETTINGS = os.path.join(REPO, "gpkit", "env", "settings")
if not os.path.exists(SETTINGS):
    # gpkit/env is git-ignored; without it the first import starts a solver search and a test run
    os.makedirs(os.path.dirname(SETTINGS), exist_ok=True)
    with open(SETTINGS, "w") as f:
        f.write("installed_solvers : cvxopt\n")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np  # noqa
import gpkit  # noqa
assert os.path.realpath(os.path.dirname(gpkit.__file__)) == os.path.realpath(os.path.join(REPO, "gpkit")), gpkit.__file__
warnings.simplefilter("ignore")
np.seterr(all="ignore")


def reset():
    "Every execution starts from the same global state."
    gpkit.NamedVariables.reset_modelnumbers()
    gpkit.NamedVariables.lineage = ()
    gpkit.Vectorize.vectorization = ()
    if gpkit.SignomialsEnabled:
        gpkit.SignomialsEnabled._true = False
