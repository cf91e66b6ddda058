"""Nothing is built: check that the interpreter and the solvers are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import boot  # noqa: E402

boot.check_source()
import z3  # noqa: E402

print("z3", z3.get_version_string())
