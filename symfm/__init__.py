import os
import sys

# The code under test is always imported from /repo's working tree.
sys.path.insert(0, os.environ.get("FMMAX_SRC", "/repo/src"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
