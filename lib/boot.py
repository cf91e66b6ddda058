"""Set up the interpreter: import plaquette from /repo/src, tools from the venv."""
import os
import sys
import warnings

REPO = os.environ.get("PLAQ_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
if VT not in sys.path:
    sys.path.append(VT)


def check_source():
    """The plaquette which is imported must be the one of the repository."""
    import plaquette

    path = os.path.realpath(plaquette.__file__)
    assert path.startswith(os.path.realpath(SRC) + os.sep), path
