"""Import environment: real code from /repo/src, solver packages appended last."""
import os
import sys

REPO_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if VT not in sys.path:
        sys.path.append(VT)
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


setup()
