"""Setup: checks the tools the checks need, and the oracles against each other."""
import os
import subprocess
import sys

CODE = r'''
import sys; sys.path.insert(0, %r)
from mc.core import setup_process, import_library
setup_process(); import_library()
import numpy, scipy, torch, matplotlib, einsumt
print("numpy", numpy.__version__, "scipy", scipy.__version__, "torch", torch.__version__)
'''

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run(["/opt/venv/bin/python", "-c", CODE % here], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
    sys.exit(r.returncode)
