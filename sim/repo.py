"""Puts /repo's working tree on the path. The code under test is always imported from there, never copied."""
import os
import sys
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
