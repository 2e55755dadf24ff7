"""Import paths: the code under test comes from /repo/src, the testing library
from /verif/.deps or, when that is missing, from the preinstalled tools."""
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
for p in (ROOT, REPO_SRC):
    if p in sys.path:
        sys.path.remove(p)
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO_SRC)
sys.path.append(os.path.join(ROOT, ".deps"))
sys.path.append(FALLBACK)
warnings.simplefilter("ignore")
os.environ.setdefault("HYPOTHESIS_NO_PLUGINS", "1")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
