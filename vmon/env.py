"""Import the code under test from /repo's *current* working tree.

Never writes byte code next to the sources and never reads stale byte code
(pycache_prefix points at a folder that does not exist).
"""
import os
import sys
import warnings

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
np.seterr(all="ignore")

import welleng as we  # noqa: E402
import welleng.survey  # noqa: E402

if not os.path.abspath(we.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError(f"welleng imported from {we.__file__}, not {REPO}")

# There is no network: without this every SurveyHeader tries (and fails) an
# HTTP lookup of the geomagnetic field.  The flag is the library's own switch
# for "calculator not installed".
if hasattr(we.survey, "MAG_CALC"):
    we.survey.MAG_CALC = False
