"""usage: main.py C01"""
import importlib
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)
# The installed message-passing library starts daemons; runs use harness/fakempi.py.
sys.modules["mpi4py"] = sys.modules["mpi4py.MPI"] = None

from harness import core  # noqa: E402

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(HERE), "checks", sys.argv[1].lower() + ".py")) as f:
        if "\nPRELOAD = True" in f.read():
            from harness import crash
            crash.reexec()
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    code = core.run_check(mod)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
