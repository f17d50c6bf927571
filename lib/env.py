"""import first: paths, and the code under test from /repo's working tree"""
import os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)          # at the END: numpy & scipy of /opt/venv win
import warnings
warnings.simplefilter("ignore")
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    import numpy, math
    import BayesicFitting as bf
assert os.path.realpath(bf.__file__).startswith(os.path.realpath(REPO) + os.sep), bf.__file__
import hypothesis
from hypothesis import strategies as st
