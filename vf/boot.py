"""process set-up shared by every check"""
import logging
import os
import sys
import warnings

os.environ.setdefault("TZ", "UTC")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)  # the working tree, ahead of any installed copy
    if VT not in sys.path:
        sys.path.append(VT)  # only z3 comes from here
    logging.disable(logging.CRITICAL)
    import metrics_layer

    assert os.path.realpath(metrics_layer.__file__).startswith(os.path.realpath(REPO) + os.sep), metrics_layer.__file__


setup()
